"""Fifth batch of behaviour-preserving edits (firmware policy, capsule headers, variable store, database tables, junit,
TPM simulator, target.txt, policy attributes)."""

from equiv_cases import case

FP = "windows/policy/firmware_policy.py"

case("fp-eq-return", (FP, '''        if type(other) is not Rule:
            return False
        if (
            self.RootKey == other.RootKey
            and self.SubKeyName == other.SubKeyName
            and self.ValueName == other.ValueName
            and self.Value == other.Value
        ):
            return True
        else:
            return False
''', '''        return (
            type(other) is Rule
            and self.RootKey == other.RootKey
            and self.SubKeyName == other.SubKeyName
            and self.ValueName == other.ValueName
            and self.Value == other.Value
        )
'''))

case("fp-rule-header-helper", (FP, '''        if fs is None or vtOffset is None:
            raise Exception("Invalid File stream or Value Table offset")
        (RootKey, OffsetToSubKeyName, OffsetToValueName, OffsetToValue) = struct.unpack(
            cls.StructFormat, fs.read(cls.StructSize)
        )

        orig_offset''', '''        if fs is None or vtOffset is None:
            raise Exception("Invalid File stream or Value Table offset")
        RootKey, OffsetToSubKeyName, OffsetToValueName, OffsetToValue = cls._ReadFixed(fs)

        orig_offset'''), (FP, '''        if fs is None or vt is None:
            raise Exception("Invalid File stream or Value Table offset")
        (RootKey, OffsetToSubKeyName, OffsetToValueName, OffsetToValue) = struct.unpack(
            cls.StructFormat, fs.read(cls.StructSize)
        )
''', '''        if fs is None or vt is None:
            raise Exception("Invalid File stream or Value Table offset")
        RootKey, OffsetToSubKeyName, OffsetToValueName, OffsetToValue = cls._ReadFixed(fs)
'''), (FP, '''    @classmethod
    def FromFsAndVtOffset(''', '''    @classmethod
    def _ReadFixed(cls, fs: BinaryIO) -> tuple:
        """Reads the fixed part of a rule."""
        raw = fs.read(cls.StructSize)
        return struct.unpack(cls.StructFormat, raw)

    @classmethod
    def FromFsAndVtOffset('''))

case("fp-rule-serialize", (FP, '''        self.OffsetToSubKeyName = offsetInVT
        localArray = bytearray()
        self.SubKeyName.Serialize(valueOut=localArray)
        valueOut += localArray

        self.OffsetToValueName = self.OffsetToSubKeyName + len(localArray)
        localArray = bytearray()
        self.ValueName.Serialize(valueOut=localArray)
        valueOut += localArray

        self.OffsetToValue = self.OffsetToValueName + len(localArray)
        localArray = bytearray()
        self.Value.Serialize(valueOut=localArray)
        valueOut += localArray
''', '''        subKey = bytearray()
        self.SubKeyName.Serialize(valueOut=subKey)
        valueName = bytearray()
        self.ValueName.Serialize(valueOut=valueName)
        value = bytearray()
        self.Value.Serialize(valueOut=value)

        self.OffsetToSubKeyName = offsetInVT
        self.OffsetToValueName = offsetInVT + len(subKey)
        self.OffsetToValue = offsetInVT + len(subKey) + len(valueName)
        valueOut += subKey
        valueOut += valueName
        valueOut += value
'''))

case("fp-string-init", (FP, '''        if String:
            self.String = String
        else:
            self.String = ""
        return
''', '''        self.String = String if String else ""
'''))

case("fp-string-frombytes", (FP, '''        StringLength = struct.unpack_from(cls.StringLengthFormat, b, bOffset)[0]
        bOffset += struct.calcsize(cls.StringLengthFormat)
        LocalString = bytes.decode(b[bOffset : bOffset + StringLength], encoding="utf_16_le")
''', '''        (StringLength,) = struct.unpack_from(cls.StringLengthFormat, b, bOffset)
        start = bOffset + cls.StringLengthSize
        end = start + StringLength
        LocalString = b[start:end].decode("utf_16_le")
'''))

case("fp-string-serialize", (FP, '''        b = str.encode(self.String, encoding="utf_16_le")
        size = struct.pack(self.StringLengthFormat, len(b))
        valueOut += size + b
''', '''        encoded = self.String.encode("utf_16_le")
        valueOut.extend(struct.pack(self.StringLengthFormat, len(encoded)))
        valueOut.extend(encoded)
'''))

case("fp-value-get", (FP, '''        valueType = PolicyValueType.FromBytes(b, bOffset)
        bOffset += PolicyValueType.StructSize

        if valueType.Get() is PolicyValueType.POLICY_VALUE_TYPE_STRING:
            value = PolicyString.FromBytes(b, bOffset)
        elif valueType.Get() is PolicyValueType.POLICY_VALUE_TYPE_DWORD:
            value = struct.unpack_from("<I", b, bOffset)[0]
        elif valueType.Get() is PolicyValueType.POLICY_VALUE_TYPE_QWORD:
            value = struct.unpack_from("<Q", b, bOffset)[0]
''', '''        valueType = PolicyValueType.FromBytes(b, bOffset)
        data = bOffset + PolicyValueType.StructSize
        vt = valueType.Get()

        if vt == PolicyValueType.POLICY_VALUE_TYPE_QWORD:
            (value,) = struct.unpack_from("<Q", b, data)
        elif vt == PolicyValueType.POLICY_VALUE_TYPE_DWORD:
            (value,) = struct.unpack_from("<I", b, data)
        elif vt == PolicyValueType.POLICY_VALUE_TYPE_STRING:
            value = PolicyString.FromBytes(b, data)
'''))

case("fp-addrule-in", (FP, '''        for rule in self.Rules:
            if rule == regRule:
                return False
        self.Rules.append(regRule)
        self.RulesCount += 1
        return True
''', '''        if any(rule == regRule for rule in self.Rules):
            return False
        self.RulesCount += 1
        self.Rules.append(regRule)
        return True
'''))

case("fp-settarget", (FP, '''            ValueName = PolicyString(String=k)
            if k == "Nonce":
                policyVT = PolicyValueType(Type=PolicyValueType.POLICY_VALUE_TYPE_QWORD)
                Value = PolicyValue(valueType=policyVT, value=v)
            else:
                policyVT = PolicyValueType(Type=PolicyValueType.POLICY_VALUE_TYPE_STRING)
                Value = PolicyValue(valueType=policyVT, value=PolicyString(String=v))
            rule = Rule(
                RootKey=self.FW_POLICY_ROOT_KEY,
                SubKeyName=PolicyString(String=self.FW_POLICY_SUB_KEY_NAME_TARGET),
                ValueName=ValueName,
                Value=Value,
            )
            self.AddRule(rule)
''', '''            if k != "Nonce":
                kind = PolicyValueType.POLICY_VALUE_TYPE_STRING
                content = PolicyString(v)
            else:
                kind = PolicyValueType.POLICY_VALUE_TYPE_QWORD
                content = v
            self.AddRule(
                Rule(
                    self.FW_POLICY_ROOT_KEY,
                    PolicyString(self.FW_POLICY_SUB_KEY_NAME_TARGET),
                    PolicyString(k),
                    PolicyValue(PolicyValueType(kind), content),
                )
            )
'''))

case("fp-serialize-each", (FP, '''        for i in range(self.Reserved2Count):
            rule = bytearray()
            value = bytearray()
            self.Reserved2[i].Serialize(ruleOut=rule, valueOut=value, offsetInVT=offsetInVT)
            ruleArray += rule
            valueArray += value
            offsetInVT += len(value)

        for i in range(self.RulesCount):
            rule = bytearray()
            value = bytearray()
            self.Rules[i].Serialize(ruleOut=rule, valueOut=value, offsetInVT=offsetInVT)
            ruleArray += rule
            valueArray += value
            offsetInVT += len(value)
''', '''        for i in range(self.Reserved2Count):
            entry = self.Reserved2[i]
            rule, value = bytearray(), bytearray()
            entry.Serialize(rule, value, offsetInVT)
            offsetInVT += len(value)
            ruleArray.extend(rule)
            valueArray.extend(value)

        for i in range(self.RulesCount):
            entry = self.Rules[i]
            rule, value = bytearray(), bytearray()
            entry.Serialize(rule, value, offsetInVT)
            offsetInVT += len(value)
            ruleArray.extend(rule)
            valueArray.extend(value)
'''))

case("fp-from-bounds", (FP, '''        Reserved2Offset = fs.tell()
        Reserved2Size = self.Reserved2Count * Reserved2.StructSize
        if (Reserved2Offset + Reserved2Size) > end:
            raise Exception("Reserved2 larger than buffer")

        RulesOffset = Reserved2Offset + Reserved2Size
        RulesSize = self.RulesCount * Rule.StructSize
        if (RulesOffset + RulesSize) > end:
            raise Exception("Rules larger than buffer")

        self.ValueTableOffset = RulesOffset + RulesSize
        self.ValueTableSize = end - self.ValueTableOffset
        saved_fs = fs.tell()
        fs.seek(self.ValueTableOffset)
        self.ValueTable = bytes(fs.read(self.ValueTableSize))
        self.ValueTableFromFile = True
        fs.seek(saved_fs)
''', '''        saved_fs = fs.tell()
        RulesOffset = saved_fs + self.Reserved2Count * Reserved2.StructSize
        if end < RulesOffset:
            raise Exception("Reserved2 larger than buffer")

        ValueTableOffset = RulesOffset + Rule.StructSize * self.RulesCount
        if end < ValueTableOffset:
            raise Exception("Rules larger than buffer")

        self.ValueTableOffset = ValueTableOffset
        self.ValueTableSize = end - ValueTableOffset
        fs.seek(ValueTableOffset)
        self.ValueTable = bytes(fs.read(self.ValueTableSize))
        fs.seek(saved_fs)
        self.ValueTableFromFile = True
'''))

case("fp-from-list", (FP, '''        self.Reserved2 = []
        for i in range(self.Reserved2Count):
            self.Reserved2.append(Reserved2(fs=fs, vtOffset=self.ValueTableOffset))

        self.Rules = []
        for i in range(self.RulesCount):
            if self.parseValueTableViaBytes is True:
                RegRule = Rule.FromFsAndVtBytes(fs=fs, vt=self.ValueTable)
            else:
                RegRule = Rule.FromFsAndVtOffset(fs=fs, vtOffset=self.ValueTableOffset)
            self.Rules.append(RegRule)
''', '''        self.Reserved2 = [Reserved2(fs=fs, vtOffset=self.ValueTableOffset) for _ in range(self.Reserved2Count)]

        self.Rules = []
        for _ in range(self.RulesCount):
            self.Rules.append(self._ReadRule(fs))

    def _ReadRule(self, fs: BinaryIO) -> Rule:
        """Reads the next rule."""
        if self.parseValueTableViaBytes is True:
            return Rule.FromFsAndVtBytes(fs=fs, vt=self.ValueTable)
        return Rule.FromFsAndVtOffset(fs=fs, vtOffset=self.ValueTableOffset)
'''))

case("fp-print-items", (FP, '''        for bit in self.FW_POLICY_VALUE_ACTION_STRINGS.keys():
            if (devicePolicy & bit) != 0:
                print(prefix + self.FW_POLICY_VALUE_ACTION_STRINGS[bit])
''', '''        for bit, text in self.FW_POLICY_VALUE_ACTION_STRINGS.items():
            if devicePolicy & bit:
                print(prefix + text)
'''))

FA = "uefi/fmp_auth_header.py"
case("fa-encode", (FA, '''        FmpAuthHeader = struct.pack(self._MonotonicCountFormat, self.MonotonicCount)

        if self.FmpPayloadHeader is not None:
            return FmpAuthHeader + self.AuthInfo.encode() + self.FmpPayloadHeader.Encode()
        else:
            return FmpAuthHeader + self.AuthInfo.encode() + self.Payload
''', '''        body = self.Payload if self.FmpPayloadHeader is None else self.FmpPayloadHeader.Encode()
        return b"".join([struct.pack(self._MonotonicCountFormat, self.MonotonicCount), self.AuthInfo.encode(), body])
'''))

case("fa-decode", (FA, '''        (MonotonicCount,) = struct.unpack(self._MonotonicCountFormat, Buffer[: self._MonotonicCountSize])
        self.MonotonicCount = MonotonicCount

        self.Payload = self.AuthInfo.decode(Buffer[self._MonotonicCountSize :])
        self.FmpPayloadHeader = None
        if len(self.Payload) > 0:
            self.FmpPayloadHeader = FmpPayloadHeaderClass()
            self.FmpPayloadHeader.Decode(self.Payload)
        return self.Payload
''', '''        self.MonotonicCount = struct.unpack_from(self._MonotonicCountFormat, Buffer)[0]

        rest = Buffer[self._MonotonicCountSize :]
        self.Payload = self.AuthInfo.decode(rest)
        if not self.Payload:
            self.FmpPayloadHeader = None
            return self.Payload
        header = FmpPayloadHeaderClass()
        self.FmpPayloadHeader = header
        header.Decode(self.Payload)
        return self.Payload
'''))

case("fa-signed", (FA, '''        if len(Buffer) < self._MonotonicCountSize:
            return False

        try:
            auth_info = WinCertUefiGuid(Buffer[self._MonotonicCountSize :])
        except ValueError:
            return False
        return auth_info.cert_type == WinCertUefiGuid._EFI_CERT_TYPE_PKCS7_GUID
''', '''        signed = False
        if len(Buffer) >= self._MonotonicCountSize:
            try:
                auth_info = WinCertUefiGuid(Buffer[self._MonotonicCountSize :])
                signed = auth_info.cert_type == WinCertUefiGuid._EFI_CERT_TYPE_PKCS7_GUID
            except ValueError:
                pass
        return signed
'''))

UC = "uefi/uefi_capsule_header.py"
case("uc-flags-helper", (UC, '''        Flags = self.OemFlags
        if self.PersistAcrossReset:
            Flags = Flags | self._CAPSULE_FLAGS_PERSIST_ACROSS_RESET
        if self.PopulateSystemTable:
            Flags = Flags | self._CAPSULE_FLAGS_POPULATE_SYSTEM_TABLE
        if self.InitiateReset:
            Flags = Flags | self._CAPSULE_FLAGS_INITIATE_RESET

        # If we have''', '''        Flags = self._Flags()

        # If we have'''), (UC, '''        Flags = self.OemFlags
        if self.PersistAcrossReset:
            Flags = Flags | self._CAPSULE_FLAGS_PERSIST_ACROSS_RESET
        if self.PopulateSystemTable:
            Flags = Flags | self._CAPSULE_FLAGS_POPULATE_SYSTEM_TABLE
        if self.InitiateReset:
            Flags = Flags | self._CAPSULE_FLAGS_INITIATE_RESET
        print("EFI_CAPSULE_HEADER.CapsuleGuid''', '''        Flags = self._Flags()
        print("EFI_CAPSULE_HEADER.CapsuleGuid'''), (UC, '''    def Encode(self) -> bytes:''', '''    def _Flags(self) -> int:
        """Combines the OEM flags with the architected ones."""
        Flags = self.OemFlags
        if self.PersistAcrossReset:
            Flags |= self._CAPSULE_FLAGS_PERSIST_ACROSS_RESET
        if self.PopulateSystemTable:
            Flags |= self._CAPSULE_FLAGS_POPULATE_SYSTEM_TABLE
        if self.InitiateReset:
            Flags |= self._CAPSULE_FLAGS_INITIATE_RESET
        return Flags

    def Encode(self) -> bytes:'''))

case("uc-flag-order", (UC, '''        Flags = self.OemFlags
        if self.PersistAcrossReset:
            Flags = Flags | self._CAPSULE_FLAGS_PERSIST_ACROSS_RESET
        if self.PopulateSystemTable:
            Flags = Flags | self._CAPSULE_FLAGS_POPULATE_SYSTEM_TABLE
        if self.InitiateReset:
            Flags = Flags | self._CAPSULE_FLAGS_INITIATE_RESET

        # If we have''', '''        Flags = self.OemFlags
        if self.InitiateReset:
            Flags |= self._CAPSULE_FLAGS_INITIATE_RESET
        if self.PopulateSystemTable:
            Flags |= self._CAPSULE_FLAGS_POPULATE_SYSTEM_TABLE
        if self.PersistAcrossReset:
            Flags |= self._CAPSULE_FLAGS_PERSIST_ACROSS_RESET

        # If we have'''))

case("uc-decode-checks", (UC, '''        if HeaderSize < self._StructSize or HeaderSize > len(Buffer):
            raise ValueError
        if CapsuleImageSize != len(Buffer):
            raise ValueError
        self.CapsuleGuid''', '''        total = len(Buffer)
        if not self._StructSize <= HeaderSize <= total:
            raise ValueError
        if total != CapsuleImageSize:
            raise ValueError
        self.CapsuleGuid'''), (UC, '''        self.PersistAcrossReset = (Flags & self._CAPSULE_FLAGS_PERSIST_ACROSS_RESET) != 0
        self.PopulateSystemTable = (Flags & self._CAPSULE_FLAGS_POPULATE_SYSTEM_TABLE) != 0
        self.InitiateReset = (Flags & self._CAPSULE_FLAGS_INITIATE_RESET) != 0
''', '''        self.PersistAcrossReset = bool(Flags & self._CAPSULE_FLAGS_PERSIST_ACROSS_RESET)
        self.PopulateSystemTable = bool(Flags & self._CAPSULE_FLAGS_POPULATE_SYSTEM_TABLE)
        self.InitiateReset = bool(Flags & self._CAPSULE_FLAGS_INITIATE_RESET)
'''))

FC = "uefi/fmp_capsule_header.py"
case("fc-encode-offsets", (FC, '''        FmpCapsuleData = b""
        offset_list = []
        Offset = self._StructSize + (self.EmbeddedDriverCount + self.PayloadItemCount) * self._ItemOffsetSize
        for EmbeddedDriver in self._EmbeddedDriverList:
            FmpCapsuleData = FmpCapsuleData + EmbeddedDriver
            offset_list.append(Offset)
            Offset = Offset + len(EmbeddedDriver)
        for FmpCapsuleImageHeader in self._FmpCapsuleImageHeaderList:
            FmpCapsuleImage = FmpCapsuleImageHeader.Encode()
            FmpCapsuleData = FmpCapsuleData + FmpCapsuleImage
            offset_list.append(Offset)
            Offset = Offset + len(FmpCapsuleImage)

        for Offset in offset_list:
            FmpCapsuleHeader = FmpCapsuleHeader + struct.pack(self._ItemOffsetFormat, Offset)

        return FmpCapsuleHeader + FmpCapsuleData
''', '''        items = list(self._EmbeddedDriverList)
        for FmpCapsuleImageHeader in self._FmpCapsuleImageHeaderList:
            items.append(FmpCapsuleImageHeader.Encode())

        Offset = self._StructSize + len(items) * self._ItemOffsetSize
        for item in items:
            FmpCapsuleHeader += struct.pack(self._ItemOffsetFormat, Offset)
            Offset += len(item)

        return FmpCapsuleHeader + b"".join(items)
'''))

case("fc-decode-end", (FC, '''        for Index in range(EmbeddedDriverCount):
            Offset = offset_list[Index]
            if Index < (len(offset_list) - 1):
                Length = offset_list[Index + 1] - Offset
            else:
                Length = len(Buffer) - Offset
            self.AddEmbeddedDriver(Buffer[Offset : Offset + Length])
''', '''        for Index in range(EmbeddedDriverCount):
            Offset = offset_list[Index]
            Length = len(Buffer) - Offset
            if Index + 1 < len(offset_list):
                Length = offset_list[Index + 1] - Offset
            driver = Buffer[Offset : Offset + Length]
            self.AddEmbeddedDriver(driver)
'''))

case("fc-image-encode", (FC, '''        if self.FmpAuthHeader is not None:
            self.Payload = self.FmpAuthHeader.Encode()

        self.UpdateImageSize = len(self.Payload)
        self.UpdateVendorCodeSize = len(self.VendorCodeBytes)
        FmpCapsuleImageHeader = struct.pack(
            self._StructFormat,
            self.Version,
            self.UpdateImageTypeId.bytes_le,
            self.UpdateImageIndex,
            0,
            0,
            0,
            self.UpdateImageSize,
            self.UpdateVendorCodeSize,
            self.UpdateHardwareInstance,
        )
        return FmpCapsuleImageHeader + self.Payload + self.VendorCodeBytes
''', '''        if self.FmpAuthHeader is not None:
            self.Payload = self.FmpAuthHeader.Encode()

        self.UpdateVendorCodeSize = len(self.VendorCodeBytes)
        self.UpdateImageSize = len(self.Payload)
        reserved = [0] * 3
        fields = (
            self.Version,
            self.UpdateImageTypeId.bytes_le,
            self.UpdateImageIndex,
            *reserved,
            self.UpdateImageSize,
            self.UpdateVendorCodeSize,
            self.UpdateHardwareInstance,
        )
        out = struct.pack(self._StructFormat, *fields)
        out += self.Payload
        out += self.VendorCodeBytes
        return out
'''))

case("fc-image-decode", (FC, '''        if Version < self.EFI_FIRMWARE_MANAGEMENT_CAPSULE_IMAGE_HEADER_INIT_VERSION:
            raise ValueError
        if UpdateImageIndex < 1:
            raise ValueError
        if UpdateImageSize + UpdateVendorCodeSize != len(Buffer[self._StructSize :]):
            raise ValueError
''', '''        if UpdateImageIndex == 0 or Version < self.EFI_FIRMWARE_MANAGEMENT_CAPSULE_IMAGE_HEADER_INIT_VERSION:
            raise ValueError
        if self._StructSize + UpdateImageSize + UpdateVendorCodeSize != len(Buffer):
            raise ValueError
'''))

FF = "uefi/pi_firmware_file.py"
case("ff-guid", (FF, '''        if sys.byteorder == "big":
            self.FileSystemGuid = uuid.UUID(bytes=self.FileSystemGuid)
        else:
            self.FileSystemGuid = uuid.UUID(bytes_le=self.FileSystemGuid)

        return self
''', '''        raw = self.FileSystemGuid
        self.FileSystemGuid = uuid.UUID(bytes=raw) if sys.byteorder == "big" else uuid.UUID(bytes_le=raw)
        return self
'''), (FF, '''        return self.Size0 + (self.Size1 << 8) + (self.Size2 << 16)
''', '''        return (self.Size2 << 16) + (self.Size1 << 8) + self.Size0
'''))
case("ff-size-or", (FF, '''        return self.Size0 + (self.Size1 << 8) + (self.Size2 << 16)
''', '''        return self.Size0 | (self.Size1 << 8) | (self.Size2 << 16)
'''))
case("ff-size-mul", (FF, '''        return self.Size0 + (self.Size1 << 8) + (self.Size2 << 16)
''', '''        return self.Size0 + self.Size1 * 0x100 + self.Size2 * 0x10000
'''))

VF = "uefi/edk2/variable_format.py"
case("vf-padding", (VF, '''        buffer_data_size = self.get_buffer_data_size()
        padding_size = 0
        if buffer_data_size % HEADER_ALIGNMENT != 0:
            padding_size += HEADER_ALIGNMENT - (buffer_data_size % HEADER_ALIGNMENT)
        return padding_size
''', '''        remainder = self.get_buffer_data_size() % HEADER_ALIGNMENT
        if remainder == 0:
            return 0
        return HEADER_ALIGNMENT - remainder
'''))
case("vf-padding-neg", (VF, '''        buffer_data_size = self.get_buffer_data_size()
        padding_size = 0
        if buffer_data_size % HEADER_ALIGNMENT != 0:
            padding_size += HEADER_ALIGNMENT - (buffer_data_size % HEADER_ALIGNMENT)
        return padding_size
''', '''        return -self.get_buffer_data_size() % HEADER_ALIGNMENT
'''))
case("vf-guid-helper", (VF, '''        self.populate_structure_fields(in_bytes[0 : self.StructSize])

        # Update the GUID to be a UUID object.
        if sys.byteorder == "big":
            self.VendorGuid = uuid.UUID(bytes=self.VendorGuid)
        else:
            self.VendorGuid = uuid.UUID(bytes_le=self.VendorGuid)
''', '''        self.populate_structure_fields(in_bytes[: self.StructSize])
        self._convert_guid()
'''), (VF, '''        self.populate_structure_fields(struct_bytes)

        # Update the GUID to be a UUID object.
        if sys.byteorder == "big":
            self.VendorGuid = uuid.UUID(bytes=self.VendorGuid)
        else:
            self.VendorGuid = uuid.UUID(bytes_le=self.VendorGuid)
''', '''        self.populate_structure_fields(struct_bytes)
        self._convert_guid()
'''), (VF, '''    def load_from_bytes(self''', '''    def _convert_guid(self) -> None:
        """Turns the raw GUID bytes into a UUID."""
        if sys.byteorder == "big":
            self.VendorGuid = uuid.UUID(bytes=self.VendorGuid)
        else:
            self.VendorGuid = uuid.UUID(bytes_le=self.VendorGuid)

    def load_from_bytes(self'''))
case("vf-name", (VF, '''        data_offset = self.StructSize
        self.Name = in_bytes[data_offset : (data_offset + self.NameSize)].decode("utf-16")
        self.Name = self.Name[:-1]  # Strip the terminating char.
        data_offset += self.NameSize
        self.Data = in_bytes[data_offset : (data_offset + self.DataSize)]
''', '''        name_end = self.StructSize + self.NameSize
        data_end = name_end + self.DataSize
        self.Name = in_bytes[self.StructSize : name_end].decode("utf-16")[:-1]
        self.Data = in_bytes[name_end:data_end]
'''), (VF, '''        name_bytes = self.Name.encode("utf-16")

        # Python encode will leave an "0xFFFE" on the front
        # to declare the encoding type. UEFI does not use this.
        name_bytes = name_bytes[2:]

        # Python encode skips the terminating character, so let's add that.
        name_bytes += b"\\x00\\x00"

        return name_bytes
''', '''        return self.Name.encode("utf-16")[2:] + b"\\x00\\x00"
'''))
case("vf-serialize", (VF, '''        bytes = self.pack_struct()

        # Now add the name and data.
        bytes += self.get_packed_name()
        bytes += self.Data

        # Add padding if necessary.
        if with_padding:
            bytes += b"\\xff" * self.get_buffer_padding_size()

        return bytes
''', '''        parts = [self.pack_struct(), self.get_packed_name(), self.Data]
        if with_padding:
            parts.append(b"\\xff" * self.get_buffer_padding_size())
        return b"".join(parts)
'''))
case("vf-store-type", (VF, '''        if self.Signature != EfiVariableGuid and self.Signature != EfiAuthenticatedVariableGuid:
            raise Exception("VarStore is of unknown type! %s" % self.Signature)
        self.Type = "AuthVar" if self.Signature == EfiAuthenticatedVariableGuid else "Var"

        return self
''', '''        if self.Signature == EfiAuthenticatedVariableGuid:
            self.Type = "AuthVar"
        elif self.Signature == EfiVariableGuid:
            self.Type = "Var"
        else:
            raise Exception(f"VarStore is of unknown type! {self.Signature}")

        return self
'''))

UM = "uefi/uefi_multi_phase.py"
case("um-parse", (UM, '''            if (
                attr not in EfiVariableAttributes.INVERSE_STRING_MAP
                and attr not in EfiVariableAttributes.INVERSE_SHORT_STRING_MAP
            ):
                raise ValueError(f'Attribute string "{attr}" not supported')

            # attempt to get the value from the INVERSE_STRING_MAP if it fails,
            # try to grab it from the INVERSE_SHORT_MAP
            attr_value = EfiVariableAttributes.INVERSE_STRING_MAP.get(
                attr,
                EfiVariableAttributes.INVERSE_SHORT_STRING_MAP.get(
                    attr,
                    0,  # We should never get here since it would fail the above if condition
                ),
            )

            attributes |= attr_value
''', '''            if attr in EfiVariableAttributes.INVERSE_STRING_MAP:
                attributes |= EfiVariableAttributes.INVERSE_STRING_MAP[attr]
            elif attr in EfiVariableAttributes.INVERSE_SHORT_STRING_MAP:
                attributes |= EfiVariableAttributes.INVERSE_SHORT_STRING_MAP[attr]
            else:
                raise ValueError(f'Attribute string "{attr}" not supported')
'''))
case("um-strings", (UM, '''        result = []
        for key in EfiVariableAttributes.STRING_MAP:
            if self.attributes & key:
                result.append(EfiVariableAttributes.SHORT_STRING_MAP[key])
        return ",".join(result)
''', '''        names = EfiVariableAttributes.SHORT_STRING_MAP
        return ",".join(names[key] for key in EfiVariableAttributes.STRING_MAP if self.attributes & key)
'''), (UM, '''        result = []
        for key in EfiVariableAttributes.STRING_MAP:
            if self.attributes & key:
                result.append(EfiVariableAttributes.STRING_MAP[key])
        return ",".join(result)
''', '''        return ",".join(text for key, text in EfiVariableAttributes.STRING_MAP.items() if self.attributes & key)
'''))
case("um-update", (UM, '''        if isinstance(attributes, int):
            self.attributes = attributes
        elif isinstance(attributes, str):
            self.attributes = EfiVariableAttributes.parse_attributes_str(attributes)
        else:
            raise TypeError(f"Invalid type: {type(attributes)}")
''', '''        if not isinstance(attributes, (int, str)):
            raise TypeError(f"Invalid type: {type(attributes)}")
        if isinstance(attributes, str):
            attributes = self.parse_attributes_str(attributes)
        self.attributes = attributes
'''))

TS = "tpm/tpm2_simulator.py"
case("ts-poll", (TS, '''        while True:
            result_size = self.read_raw_data(4)
            result_size = struct.unpack(">L", result_size)[0]
            if result_size > 0:
                break

        return self.read_raw_data(result_size)
''', '''        result_size = 0
        while result_size <= 0:
            (result_size,) = struct.unpack(">L", self.read_raw_data(4))

        return self.read_raw_data(result_size)
'''))
case("ts-signal", (TS, '''            self.platSock.send(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_POWER_OFF"]))
            self.platSock.send(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_POWER_ON"]))

            # Enable the NV space.
            self.platSock.send(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_NV_ON"]))
''', '''            self._signal("TPM_SIGNAL_POWER_OFF")
            self._signal("TPM_SIGNAL_POWER_ON")

            # Enable the NV space.
            self._signal("TPM_SIGNAL_NV_ON")
'''), (TS, '''    def close(self) -> None:''', '''    def _signal(self, name: str) -> None:
        """Sends a platform command."""
        command = struct.pack(">L", PLAT_COMMANDS[name])
        self.platSock.send(command)

    def close(self) -> None:'''))

TT = "uefi/edk2/parsers/targettxt_parser.py"
case("tt-loop", (TT, '''            if sline is None or len(sline) < 1:
                continue

            if sline.count("=") == 1:
                tokens = sline.split("=", 1)
                self.Dict[tokens[0].strip()] = tokens[1].strip()
                self.Logger.debug("Key,values found:  %s = %s" % (tokens[0].strip(), tokens[1].strip()))
                continue
''', '''            if not sline:
                continue

            if sline.count("=") != 1:
                continue
            key, value = (token.strip() for token in sline.split("="))
            self.Dict[key] = value
            self.Logger.debug("Key,values found:  %s = %s" % (key, value))
'''))
case("tt-path", (TT, '''        if not os.path.isabs(filepath):
            fp = self.FindPath(filepath)
        else:
            fp = filepath
        if fp is None:
            raise FileNotFoundError(filepath)
        self.Path = fp
''', '''        fp = filepath if os.path.isabs(filepath) else self.FindPath(filepath)
        if fp is None:
            raise FileNotFoundError(filepath)
        self.Path = fp
'''))
case("tt-partition", (TT, '''                tokens = sline.split("=", 1)
                self.Dict[tokens[0].strip()] = tokens[1].strip()
                self.Logger.debug("Key,values found:  %s = %s" % (tokens[0].strip(), tokens[1].strip()))
''', '''                key, _, value = sline.partition("=")
                key = key.strip()
                value = value.strip()
                self.Dict[key] = value
                self.Logger.debug("Key,values found:  %s = %s" % (key, value))
'''))

ED = "database/edk2_db.py"
case("db-session", (ED, '''        try:
            yield session
            session.commit()
        except Exception as e:
            session.rollback()
            raise e
        finally:
            session.close()
''', '''        try:
            yield session
        except Exception:
            session.rollback()
            raise
        else:
            try:
                session.commit()
            except Exception:
                session.rollback()
                raise
        finally:
            session.close()
'''), (ED, '''        for parser in parsers:
            self._parsers.append(parser)
''', '''        self._parsers.extend(parsers)
'''))
case("db-parse", (ED, '''        id = str(uuid.uuid4().hex)

        # Fill all tables
        for table in self._parsers:
            logging.debug(f"[{table.__class__.__name__}] starting...")
            t = time.time()
            with self.session() as session:
                table.parse(session, self.pathobj, id, env)
            logging.debug(f"Finished in {round(time.time() - t, 2)}")
''', '''        env_id = uuid.uuid4().hex

        # Fill all tables
        for generator in self._parsers:
            self._run(generator, env_id, env)

    def _run(self, generator: "TableGenerator", env_id: str, env: dict) -> None:
        """Runs a single generator in a session of its own."""
        logging.debug(f"[{generator.__class__.__name__}] starting...")
        t = time.time()
        with self.session() as session:
            generator.parse(session, self.pathobj, env_id, env)
        logging.debug(f"Finished in {round(time.time() - t, 2)}")
'''))

IT = "database/tables/inf_table.py"
case("it-skip", (IT, '''            if entry.guid == "":
                continue
            if entry.path in all_inf:
                continue
            for source in source_list:
                if source not in all_source:
                    all_source[source] = Source(path=source)
                entry.sources.append(all_source[source])
            for lib in lib_list:
                if lib not in all_libs:
                    all_libs[lib] = Library(name=lib)
                entry.libraries.append(all_libs[lib])
''', '''            if entry.guid == "" or entry.path in all_inf:
                continue
            for source in source_list:
                row = all_source.get(source)
                if row is None:
                    row = Source(path=source)
                    all_source[source] = row
                entry.sources.append(row)
            for lib in lib_list:
                row = all_libs.get(lib)
                if row is None:
                    row = Library(name=lib)
                    all_libs[lib] = row
                entry.libraries.append(row)
'''))
case("it-files", (IT, '''        files = list(ws.glob("**/*.inf"))
        files = [file for file in files if not file.is_relative_to(ws / "Build")]
''', '''        build = ws / "Build"
        files = [file for file in ws.rglob("*.inf") if not file.is_relative_to(build)]
'''))
case("it-source-helper", (IT, '''        source_list = []
        for source in inf_parser.Sources:
            source = (Path(filename).parent / source).resolve()
            # A source outside of the workspace and packages path keeps its absolute path
            relative_source = pathobj.GetEdk2RelativePathFromAbsolutePath(str(source))
            source_list.append(source.as_posix() if relative_source is None else relative_source)
''', '''        source_list = [self._source_path(filename, source, pathobj) for source in inf_parser.Sources]
'''), (IT, '''    def _parse_file(self''', '''    def _source_path(self, filename: str, source: str, pathobj: Edk2Path) -> str:
        """Path a source is recorded under."""
        absolute = (Path(filename).parent / source).resolve()
        relative = pathobj.GetEdk2RelativePathFromAbsolutePath(str(absolute))
        if relative is not None:
            return relative
        return absolute.as_posix()

    def _parse_file(self'''))

ST = "database/tables/source_table.py"
case("st-update", (ST, '''            if source.path not in existing_source:
                existing_source[source.path] = source
                to_add.append(source)
            else:
                to_add.append(existing_source[source.path])
                to_add[-1].license = source.license
                to_add[-1].total_lines = source.total_lines
                to_add[-1].code_lines = source.code_lines
                to_add[-1].comment_lines = source.comment_lines
                to_add[-1].blank_lines = source.blank_lines
''', '''            if source.path in existing_source:
                row = existing_source[source.path]
                row.license = source.license
                row.total_lines = source.total_lines
                row.code_lines = source.code_lines
                row.comment_lines = source.comment_lines
                row.blank_lines = source.blank_lines
            else:
                row = source
                existing_source[source.path] = row
            to_add.append(row)
'''))
case("st-lines", (ST, '''        total_lines = len(lines)
        code_lines = total_lines
        comment_lines = 0
        blank_lines = 0
        if self.source_stats:
            code = SourceAnalysis.from_file(filename, "_", fallback_encoding="utf-8")
            code_lines = code.code_count
            comment_lines = code.documentation_count
            blank_lines = code.empty_count
''', '''        total_lines = len(lines)
        if self.source_stats:
            code = SourceAnalysis.from_file(filename, "_", fallback_encoding="utf-8")
            code_lines, comment_lines, blank_lines = code.code_count, code.documentation_count, code.empty_count
        else:
            code_lines, comment_lines, blank_lines = total_lines, 0, 0
'''))
case("st-license", (ST, '''        license = ""
        with open(filename, "r", encoding="cp850") as f:
            lines = f.readlines()
            for line in lines:
                match = re.search(r"SPDX-License-Identifier:\\s*(.*)$", line)  # TODO: This is not a standard format.
                if match:
                    license = match.group(1)
''', '''        with open(filename, "r", encoding="cp850") as f:
            lines = f.readlines()
        license = ""
        for line in lines:
            match = re.search(r"SPDX-License-Identifier:\\s*(.*)$", line)
            if match is not None:
                license = match.group(1)
'''))

PT = "database/tables/package_table.py"
case("pt-repo-name", (PT, '''        if "origin" in repo.remotes:
            return repo.remotes.origin.url.split("/")[-1].split(GIT_EXTENSION)[0].upper()
        elif len(repo.remotes) > 0:
            return repo.remotes[0].url.split("/")[-1].split(GIT_EXTENSION)[0].upper()
        return "BASE"
''', '''        if "origin" in repo.remotes:
            url = repo.remotes.origin.url
        elif len(repo.remotes) > 0:
            url = repo.remotes[0].url
        else:
            return "BASE"
        return url.split("/")[-1].split(GIT_EXTENSION)[0].upper()
'''))
case("pt-setdefault", (PT, '''            if (pkg_name, pkg_path) not in all_packages:
                package = all_packages.setdefault(
                    (pkg_name, pkg_path), Package(name=pkg_name, path=pkg_path, repository=repository)
                )
                packages_to_add.append(package)
''', '''            key = (pkg_name, pkg_path)
            if key in all_packages:
                continue
            package = Package(name=pkg_name, path=pkg_path, repository=repository)
            all_packages[key] = package
            packages_to_add.append(package)
'''))

II = "database/tables/instanced_inf_table.py"
case("ii-cache", (II, '''        if inf in self._parsed_infs:
            infp = self._parsed_infs[inf]
        else:
            infp = InfP().SetEdk2Path(self.pathobj)
            infp.ParseFile(inf)
            self._parsed_infs[inf] = infp
        return infp
''', '''        if inf not in self._parsed_infs:
            parser = InfP().SetEdk2Path(self.pathobj)
            parser.ParseFile(inf)
            self._parsed_infs[inf] = parser
        return self._parsed_infs[inf]
'''))
case("ii-lookup-loop", (II, '''        # 2/3. If the Library Class instance (INF) is defined in the [LibraryClasses.$(ARCH).$(MODULE_TYPE)] section,
        #      and the library supports the module, then it will be used.
        lookup = f"{arch}.{module}.{library_class_name}"
        if lookup in library_dict:
            library_instance = self._reduce_lib_instances(module, library_dict[lookup])
            if library_instance is not None:
                return library_instance

        # 4. If the Library Class instance (INF) is defined in the [LibraryClasses.common.$(MODULE_TYPE)] section,
        #    and the library supports the module, then it will be used.
        lookup = f"common.{module}.{library_class_name}"
        if lookup in library_dict:
            library_instance = self._reduce_lib_instances(module, library_dict[lookup])
            if library_instance is not None:
                return library_instance

        # 5. If the Library Class instance (INF) is defined in the [LibraryClasses.$(ARCH)] section,
        #    and the library supports the module, then it will be used.
        lookup = f"{arch}.{library_class_name}"
        if lookup in library_dict:
            library_instance = self._reduce_lib_instances(module, library_dict[lookup])
            if library_instance is not None:
                return library_instance

        # 6. If the Library Class Instance (INF) is defined in the [LibraryClasses] section,
        #    and the library supports the module, then it will be used.
        lookup = f"common.{library_class_name}"
        if lookup in library_dict:
            library_instance = self._reduce_lib_instances(module, library_dict[lookup])
            if library_instance is not None:
                return library_instance
''', '''        # 2-6. The most specific [LibraryClasses] section that defines an instance supporting the module wins.
        lookups = (
            f"{arch}.{module}.{library_class_name}",
            f"common.{module}.{library_class_name}",
            f"{arch}.{library_class_name}",
            f"common.{library_class_name}",
        )
        for lookup in lookups:
            if lookup not in library_dict:
                continue
            library_instance = self._reduce_lib_instances(module, library_dict[lookup])
            if library_instance is not None:
                return library_instance
'''))
case("ii-null-loop", (II, '''        null_libs = []

        lookup = f"{arch}.{module}.null"
        null_libs.extend(library_dict.get(lookup, []))

        lookup = f"common.{module}.null"
        null_libs.extend(library_dict.get(lookup, []))

        lookup = f"{arch}.null"
        null_libs.extend(library_dict.get(lookup, []))

        lookup = "common.null"
        null_libs.extend(library_dict.get(lookup, []))

        return null_libs
''', '''        null_libs = []
        for prefix in (f"{arch}.{module}", f"common.{module}", arch, "common"):
            null_libs += library_dict.get(f"{prefix}.null", [])
        return null_libs
'''))
case("ii-sources", (II, '''            sources = []
            for src in e["SOURCES_USED"]:
                if src in all_sources:
                    sources.append(all_sources[src])
                else:
                    sources.append(Source(path=src))
                    all_sources[src] = sources[-1]
''', '''            sources = []
            for src in e["SOURCES_USED"]:
                if src not in all_sources:
                    all_sources[src] = Source(path=src)
                sources.append(all_sources[src])
'''))
case("ii-link", (II, '''            libraries = [all_libraries.get((path, row.arch, lib, row.component)) for lib, path in inf["LIBRARIES_USED"]]
            row.libraries.extend([lib for lib in libraries if lib is not None])
''', '''            for lib, path in inf["LIBRARIES_USED"]:
                library = all_libraries.get((path, row.arch, lib, row.component))
                if library is not None:
                    row.libraries.append(library)
'''))
case("ii-null-pairs", (II, '''            for null_lib in override_dict["NULL"]:
                library_instance_list.append(null_lib)
                library_class_list.append("NULL")

            for null_lib in self._get_null_lib_instances(scope, library_dict):
                library_instance_list.append(null_lib)
                library_class_list.append("NULL")
''', '''            null_libs = list(override_dict["NULL"])
            null_libs.extend(self._get_null_lib_instances(scope, library_dict))
            for null_lib in null_libs:
                library_class_list.append("NULL")
                library_instance_list.append(null_lib)
'''))
case("ii-posix", (II, '''        def to_posix(path: str) -> str:
            if path is None:
                return None
            return Path(path).as_posix()

        library_instance_list = list(map(to_posix, library_instance_list))
''', '''        library_instance_list = [None if path is None else Path(path).as_posix() for path in library_instance_list]
'''))

JU = "log/junit_report_format.py"
case("ju-escape", (JU, '''from xml.sax.saxutils import escape

''', '''from xml.sax.saxutils import escape


def _attribute(text: str) -> str:
    """Escapes text for use in an attribute value."""
    return escape(text.strip(), {'"': "&quot;"})

'''), (JU, '''        """Init the type of error."""
        self.Message = escape(msg.strip(), {'"': "&quot;"})
        self.Type = escape(type.strip(), {'"': "&quot;"})
''', '''        """Init the type of error."""
        self.Message = _attribute(msg)
        self.Type = _attribute(type)
'''), (JU, '''        self.Name = escape(Name.strip(), {'"': "&quot;"})
        self.Package = escape(Package.strip(), {'"': "&quot;"})
''', '''        self.Name = _attribute(Name)
        self.Package = _attribute(Package)
'''))
case("ju-finish", (JU, '''        if self.Status != JunitReportTestCase.NEW:
            raise Exception("Can't Set to success.  State must be in NEW")
        self.Status = JunitReportTestCase.SUCCESS
        self.Time = time.time() - self._StartTime
''', '''        self._Finish(JunitReportTestCase.SUCCESS, "success")
'''), (JU, '''        if self.Status != JunitReportTestCase.NEW:
            raise Exception("Can't Set to skipped.  State must be in NEW")
        self.Status = JunitReportTestCase.SKIPPED
        self.Time = time.time() - self._StartTime
''', '''        self._Finish(JunitReportTestCase.SKIPPED, "skipped")
'''), (JU, '''    def LogStdOut(self''', '''    def _Finish(self, status: int, name: str) -> None:
        """Moves the test case out of the NEW state."""
        if self.Status != JunitReportTestCase.NEW:
            raise Exception(f"Can't Set to {name}.  State must be in NEW")
        self.Status = status
        self.Time = time.time() - self._StartTime

    def LogStdOut(self'''))
case("ju-count", (JU, '''        Errors = 0
        Failures = 0
        Skipped = 0
        Tests = len(self.TestCases)

        for a in self.TestCases:
            if a.Status == JunitReportTestCase.FAILED:
                Failures += 1
            elif a.Status == JunitReportTestCase.ERROR:
                Errors += 1
            elif a.Status == JunitReportTestCase.SKIPPED:
                Skipped += 1
''', '''        Tests = len(self.TestCases)
        Failures = sum(1 for a in self.TestCases if a.Status == JunitReportTestCase.FAILED)
        Errors = sum(1 for a in self.TestCases if a.Status == JunitReportTestCase.ERROR)
        Skipped = sum(1 for a in self.TestCases if a.Status == JunitReportTestCase.SKIPPED)
'''))
case("ju-output", (JU, '''            outstream.write('<skipped type="skipped">')
            outstream.write(self.StdOut)
            outstream.write("</skipped>")
''', '''            outstream.write('<skipped type="skipped">' + self.StdOut + "</skipped>")
'''), (JU, '''        outstream.write("<system-out>" + self.StdOut + "</system-out>")
        outstream.write("<system-err>" + self.StdErr + "</system-err>")
        outstream.write("</testcase>")
''', '''        outstream.write(f"<system-out>{self.StdOut}</system-out>")
        outstream.write(f"<system-err>{self.StdErr}</system-err></testcase>")
'''))
