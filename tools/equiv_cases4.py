"""A fourth set of behaviour-preserving edits written by hand."""
from equiv_cases import case

GI = "gitignore_parser.py"
case("gi-enumerate", (GI, '''    counter = 0
    rules = []
    for line in lines:
        counter += 1
        line = line.rstrip("\\n")
        rule = rule_from_pattern(line, base_path=Path(base_dir).resolve(), source=(full_path, counter))
        if rule:
            rules.append(rule)
''', '''    rules = []
    root = Path(base_dir).resolve()
    for number, line in enumerate(lines, start=1):
        rule = rule_from_pattern(line.rstrip("\\n"), base_path=root, source=(full_path, number))
        if rule is not None:
            rules.append(rule)
'''))
case("gi-matchret", (GI, '''        if re.search(self.regex, rel_path):
            matched = True
        return matched
''', '''        return re.search(self.regex, rel_path) is not None
'''), (GI, '''        matched = False
        if self.base_path:
''', '''        if self.base_path:
'''))
case("gi-count", (GI, '''    count = 0
    for char in reversed(str(text)):
        if char == symbol:
            count += 1
        else:
            break
    return count
''', '''    text = str(text)
    return len(text) - len(text.rstrip(symbol))
'''))
case("gi-negation", (GI, '''    if pattern[0] == "!":
        negation = True
        pattern = pattern[1:]
    else:
        negation = False
''', '''    negation = pattern.startswith("!")
    if negation:
        pattern = pattern[1:]
'''), (GI, '''    directory_only = pattern[-1] == "/"
''', '''    directory_only = pattern.endswith("/")
'''))
case("gi-regex-tail", (GI, '''    if anchored:
        res.insert(0, "^")
    else:
        res.insert(0, f"(^|{seps_group})")
    if not directory_only:
        res.append("$")
    elif directory_only and negation:
        res.append("/$")
    else:
        res.append("($|\\\\/)")
    return "".join(res)
''', '''    head = "^" if anchored else f"(^|{seps_group})"
    if not directory_only:
        tail = "$"
    else:
        tail = "/$" if negation else "($|\\\\/)"
    return head + "".join(res) + tail
'''))
case("gi-set-helper", (GI, '''            if j < n and pattern[j] == "!":
                j += 1
            if j < n and pattern[j] == "]":
                j += 1
            while j < n and pattern[j] != "]":
                j += 1
''', '''            for symbol in ("!", "]"):
                if j < n and pattern[j] == symbol:
                    j += 1
            while j < n and pattern[j] != "]":
                j += 1
'''))

FD = "uefi/edk2/parsers/fdf_parser.py"
case("fdf-section-name", (FD, '''        InDefinesSection = False
        InFdSection = False
        InFvSection = False
        InCapsuleSection = False
        InFmpPayloadSection = False
        InRuleSection = False

        sline = ""
        while sline is not None:
            sline = self.GetNextLine()

            if sline is None:
                break
''', '''        InDefinesSection = InFdSection = InFvSection = False
        InCapsuleSection = InFmpPayloadSection = InRuleSection = False

        while True:
            sline = self.GetNextLine()

            if sline is None:
                break
'''))
case("fdf-header", (FD, '''            # check for different sections
            if sline.strip().lower().startswith("[defines"):
                InDefinesSection = True

            elif sline.strip().lower().startswith("[fd."):
                InFdSection = True

            elif sline.strip().lower().startswith("[fv."):
                InFvSection = True

            elif sline.strip().lower().startswith("[capsule."):
                InCapsuleSection = True

            elif sline.strip().lower().startswith("[fmppayload."):
                InFmpPayloadSection = True

            elif sline.strip().lower().startswith("[rule."):
                InRuleSection = True
''', '''            # check for different sections
            header = sline.strip().lower()
            InDefinesSection = InDefinesSection or header.startswith("[defines")
            InFdSection = InFdSection or header.startswith("[fd.")
            InFvSection = InFvSection or header.startswith("[fv.")
            InCapsuleSection = InCapsuleSection or header.startswith("[capsule.")
            InFmpPayloadSection = InFmpPayloadSection or header.startswith("[fmppayload.")
            InRuleSection = InRuleSection or header.startswith("[rule.")
'''))
case("fdf-file-entry", (FD, '''                        if currentType not in self.FVs[section]:
                            self.FVs[section]["Files"][currentName] = {}
                        self.FVs[section]["Files"][currentName]["type"] = currentType
''', '''                        files = self.FVs[section]["Files"]
                        if currentType not in self.FVs[section]:
                            files[currentName] = {}
                        files[currentName]["type"] = currentType
'''), (FD, '''                                if sectionType not in self.FVs[section]["Files"][currentName]:
                                    self.FVs[section]["Files"][currentName][sectionType] = []
                                self.FVs[section]["Files"][currentName][sectionType].append(sectionValue)
''', '''                                self.FVs[section]["Files"][currentName].setdefault(sectionType, []).append(sectionValue)
'''))
case("fdf-resolve", (FD, '''        self.Logger.debug("Parsing file: %s" % filepath)
        if not os.path.isabs(filepath):
            fp = self.FindPath(filepath)
        else:
            fp = filepath
        if fp is None:
            raise FileNotFoundError(filepath)
        self.Path = fp
''', '''        self.Logger.debug(f"Parsing file: {filepath}")
        fp = filepath if os.path.isabs(filepath) else self.FindPath(filepath)
        if fp is None:
            raise FileNotFoundError(filepath)
        self.Path = fp
'''), (FD, '''                    if sline.upper().startswith("INF "):
                        InfValue = sline[3:].strip()
                        self.FVs[section]["Infs"].append(InfValue)
''', '''                    if sline.upper().startswith("INF "):
                        self.FVs[section]["Infs"].append(sline[3:].strip())
'''))
case("fdf-include-helper", (FD, '''            if sline.lower().startswith("!include"):
                tokens = sline.split()
                if len(tokens) < 2:
                    raise RuntimeError("Unable to properly parse " + sline)
                include_file = tokens[1]
                sp = self.FindPath(include_file)
                if sp is None:
                    raise FileNotFoundError(include_file)
                self.Logger.debug("Opening Include File %s" % sp)
                self.InsertLinesFromFile(sp)
                continue
''', '''            if sline.lower().startswith("!include"):
                self._include(sline)
                continue
'''), (FD, '''    def ParseFile(self''', '''    def _include(self, directive: str) -> None:
        words = directive.split()
        if len(words) < 2:
            raise RuntimeError("Unable to properly parse " + directive)
        found = self.FindPath(words[1])
        if found is None:
            raise FileNotFoundError(words[1])
        self.InsertLinesFromFile(found)

    def ParseFile(self'''))
case("fdf-insert", (FD, '''        if target in [path for (path, _) in self._OpenFiles]:
            raise ValueError(f"{target} includes itself")
''', '''        if any(target == path for path, _ in self._OpenFiles):
            raise ValueError(f"{target} includes itself")
'''))

IP = "uefi/edk2/parsers/inf_parser.py"
case("inf-scoped", (IP, '''        libraries = self.ScopedLibraryDict.get("common", []).copy()

        for arch in arch_list:
            libraries = libraries + self.ScopedLibraryDict.get(arch.lower(), []).copy()
        return list(set(libraries))
''', '''        libraries = set(self.ScopedLibraryDict.get("common", []))
        for arch in arch_list:
            libraries.update(self.ScopedLibraryDict.get(arch.lower(), []))
        return list(libraries)
'''), (IP, '''        sources = self.ScopedSourceDict.get("common", []).copy()

        for arch in arch_list:
            sources = sources + self.ScopedSourceDict.get(arch.lower(), []).copy()
        return list(set(sources))
''', '''        sources = list(self.ScopedSourceDict.get("common", []))

        for arch in arch_list:
            sources.extend(self.ScopedSourceDict.get(arch.lower(), []))
        return list(set(sources))
'''))
case("inf-setdefault", (IP, '''                    arch = "common" if arch == "" else arch.lower()
                    if arch in self.ScopedLibraryDict:
                        self.ScopedLibraryDict[arch].append(line.split()[0].strip())
                    else:
                        self.ScopedLibraryDict[arch] = [line.split()[0].strip()]
''', '''                    arch = arch.lower() if arch else "common"
                    self.ScopedLibraryDict.setdefault(arch, []).append(line.split()[0].strip())
'''), (IP, '''                    if arch in self.ScopedSourceDict:
                        self.ScopedSourceDict[arch].append(src)
                    else:
                        self.ScopedSourceDict[arch] = [src]
''', '''                    if arch not in self.ScopedSourceDict:
                        self.ScopedSourceDict[arch] = []
                    self.ScopedSourceDict[arch].append(src)
'''))
case("inf-libclass", (IP, '''                            self.LibraryClass = tokens[1].partition("|")[0].strip()
                            self.Logger.debug("Library class found")
                            if len(tokens[1].partition("|")[2].strip()) < 1:
                                self.SupportedPhases = AllPhases.copy()
                            elif tokens[1].partition("|")[2].strip().lower() == "base":
                                self.SupportedPhases = AllPhases.copy()
                            else:
                                self.SupportedPhases = tokens[1].partition("|")[2].strip().split()
''', '''                            name, _, phases = tokens[1].partition("|")
                            self.LibraryClass = name.strip()
                            phases = phases.strip()
                            if not phases or phases.lower() == "base":
                                self.SupportedPhases = AllPhases.copy()
                            else:
                                self.SupportedPhases = phases.split()
'''))
case("inf-lines", (IP, '''            if line.strip() == "":
                continue

            if line.strip().startswith("#"):
                continue
''', '''            stripped = line.strip()
            if not stripped or stripped.startswith("#"):
                continue
'''), (IP, '''            elif (
                sline.strip().lower().startswith("[pcd")
                or sline.strip().lower().startswith("[patchpcd")
                or sline.strip().lower().startswith("[fixedpcd")
                or sline.strip().lower().startswith("[featurepcd")
            ):
''', '''            elif sline.strip().lower().startswith(("[pcd", "[patchpcd", "[fixedpcd", "[featurepcd")):
'''))
case("inf-define-helper", (IP, '''            if sline.strip().startswith("DEFINE"):
                tokens = sline.strip().replace("DEFINE", "").split("=", 1)
                self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                continue
''', '''            if sline.strip().startswith("DEFINE"):
                self._add_local(sline)
                continue
'''), (IP, '''            if line.strip().startswith("DEFINE"):
                tokens = line.strip().replace("DEFINE", "").split("=", 1)
                self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                continue
''', '''            if line.strip().startswith("DEFINE"):
                self._add_local(line)
                continue
'''), (IP, '''    def ParseFile(self''', '''    def _add_local(self, text: str) -> None:
        name, value = [t.strip() for t in text.strip().replace("DEFINE", "").split("=", 1)]
        self.LocalVars[name] = value
        self.Logger.info(f"Key,values found for local vars: {name}, {value}")

    def ParseFile(self'''))
case("inf-used", (IP, '''                else:
                    self.PackagesUsed.append(sline.partition("|")[0].strip())
                    continue
''', '''                else:
                    self._use(self.PackagesUsed, sline)
                    continue
'''), (IP, '''                else:
                    self.LibrariesUsed.append(sline.partition("|")[0].strip())
                    continue
''', '''                else:
                    self._use(self.LibrariesUsed, sline)
                    continue
'''), (IP, '''    def ParseFile(self''', '''    @staticmethod
    def _use(names: list, line: str) -> None:
        names.append(line.split("|", 1)[0].strip())

    def ParseFile(self'''))

PC = "tpm/tpm2_policy_calc.py"
case("pc-hash", (PC, '''        hash_obj = None
        if self.hash_type == "sha256":
            hash_obj = hashlib.sha256()
        else:
            hash_obj = hashlib.sha384()

        hash_obj.update(data)

        return hash_obj.digest()
''', '''        algorithm = hashlib.sha256 if self.hash_type == "sha256" else hashlib.sha384
        return algorithm(data).digest()
'''))
case("pc-hash2", (PC, '''            hash_obj = hashlib.sha256()
        else:
            hash_obj = hashlib.sha384()

        hash_obj.update(data)

        return''', '''            hash_obj = hashlib.sha256(data)
        else:
            hash_obj = hashlib.sha384(data)
        return'''), (PC, '''        if hash_type not in ["sha256", "sha384"]:
            raise ValueError("Invalid hash type '%s'!" % hash_type)

        self.hash_type = hash_type
        self.hash_size = {"sha256": 32, "sha384": 48}[hash_type]
''', '''        sizes = {"sha256": 32, "sha384": 48}
        if hash_type not in sizes:
            raise ValueError("Invalid hash type '%s'!" % hash_type)

        self.hash_type = hash_type
        self.hash_size = sizes[hash_type]
'''))
case("pc-or", (PC, '''        concat_policy_buffer = b"\\x00" * hash_obj.get_size()
        concat_policy_buffer += struct.pack(">L", t2d.TPM_CC_PolicyOR)
        concat_policy_buffer += b"".join([component.get_policy(hash_obj) for component in self.components])
        return concat_policy_buffer
''', '''        buffer = bytes(hash_obj.get_size()) + struct.pack(">L", t2d.TPM_CC_PolicyOR)
        for component in self.components:
            buffer += component.get_policy(hash_obj)
        return buffer
'''), (PC, '''        result = True

        for component in self.components:
            # All components must be convertible into a policy.
            if not hasattr(component, "get_policy"):
                result = False

            # All components must also be valid.
            if not hasattr(component, "validate") or not component.validate():
                result = False

        return result
''', '''        for component in self.components:
            if not (hasattr(component, "get_policy") and hasattr(component, "validate") and component.validate()):
                return False

        return True
'''))
case("pc-locality", (PC, '''        # If the list is empty... well, we're done.
        if len(localities) == 0:
            pass

        # Now, if we're an "upper" locality, that's a simple value.
        elif len(localities) == 1 and (32 <= localities[0] < 256):
            bitfield = localities[0]

        # We have to actually "think" to calculate the "lower" localities.
        else:
            for value in localities:
                bitfield |= 1 << value

        return bitfield
''', '''        # An "upper" locality is a simple value.
        if len(localities) == 1 and 32 <= localities[0] < 256:
            return localities[0]

        for value in localities:
            bitfield |= 1 << value
        return bitfield
'''))
case("pc-locality-check", (PC, '''            # If the value is in a bad range, we're done here.
            if not (0 <= value < 5) and not (32 <= value < 256):
                raise ValueError("Invalid locality '%d'!" % value)
            # An "upper" locality must be individual. Cannot combine with 0-4.
            if (32 <= value < 256) and len(localities) > 1:
                raise ValueError("Cannot combine locality '%d' with others!" % value)
''', '''            upper = 32 <= value < 256
            if value < 0 or (value >= 5 and not upper):
                raise ValueError("Invalid locality '%d'!" % value)
            # An "upper" locality must be individual. Cannot combine with 0-4.
            if upper and len(localities) > 1:
                raise ValueError("Cannot combine locality '%d' with others!" % value)
'''))
case("pc-cc", (PC, '''        str_command_code_string = str(command_code_string)
        command_code = t2d.CommandCode.get_code(str_command_code_string)
        if command_code is None:
            raise ValueError("Command code '%s' unknown!" % str_command_code_string)
        self.command_code_string = str_command_code_string
''', '''        self.command_code_string = str(command_code_string)
        if t2d.CommandCode.get_code(self.command_code_string) is None:
            raise ValueError("Command code '%s' unknown!" % self.command_code_string)
'''))

UV = "os/uefivariablesupport.py"
case("uv-name-helper", (UV, '''            for var in vars:
                split_string = var.split("-")
                name = "-".join(split_string[:-5])
                name = name.encode("utf-16-le")
                name_len = len(name)
                length += 4 + 16 + name_len
''', '''            for var in vars:
                length += 4 + 16 + len(self._encoded_name(var))
'''), (UV, '''                # the other part is the name
                name = "-".join(split_string[:-5])
                name = name.encode("utf-16-le")
                name_len = len(name)
''', '''                # the other part is the name
                name = self._encoded_name(var)
                name_len = len(name)
'''), (UV, '''    def SetUefiVar(self''', '''    @staticmethod
    def _encoded_name(var: str) -> bytes:
        return "-".join(var.split("-")[:-5]).encode("utf-16-le")

    def SetUefiVar(self'''))
case("uv-length-sum", (UV, '''            for var in vars:
                split_string = var.split("-")
                name = "-".join(split_string[:-5])
                name = name.encode("utf-16-le")
                name_len = len(name)
                length += 4 + 16 + name_len
''', '''            length = sum(4 + 16 + len("-".join(v.split("-")[:-5]).encode("utf-16-le")) for v in vars)
'''))
case("uv-entry-size", (UV, '''                struct.pack_into("<I", efi_var_names, offset, 4 + 16 + name_len)
                offset += 4

                # VendorGuid
                struct.pack_into("=16s", efi_var_names, offset, guid)
                offset += 16

                # Name
                struct.pack_into(f"={name_len}s", efi_var_names, offset, name)
                offset += name_len
''', '''                entry_size = 4 + 16 + name_len
                struct.pack_into("<I", efi_var_names, offset, entry_size)
                struct.pack_into("=16s", efi_var_names, offset + 4, guid)
                struct.pack_into(f"={name_len}s", efi_var_names, offset + 20, name)
                offset += entry_size
'''))
case("uv-get", (UV, '''            efi_var = create_string_buffer(EFI_VAR_MAX_BUFFER_SIZE)
            with open(path, "rb") as fd:
                efi_var = fd.read()
                length = len(efi_var)

            # Unpack''', '''            with open(path, "rb") as fd:
                efi_var = fd.read()

            # Unpack'''), (UV, '''            efi_var = efi_var[4:length]

            return (err, efi_var)
''', '''            return (err, efi_var[4:])
'''), (UV, '''            path = "/sys/firmware/efi/efivars/" + name + "-%s" % guid
''', '''            path = f"/sys/firmware/efi/efivars/{name}-{guid}"
'''))
case("uv-set-write", (UV, '''                # var data is attribute (UINT32) followed by data
                packed = struct.pack("=I", attrs)
                packed += var
                fd.write(packed)
''', '''                fd.write(struct.pack("=I", attrs) + var)
'''), (UV, '''            if var is None:
                # we are deleting the variable
                if os.path.exists(path):
                    os.remove(path)
                    success = 1  # expect non-zero success
                return success

            if attrs is None:
                attrs = 0x7
''', '''            if var is None:
                # we are deleting the variable
                if not os.path.exists(path):
                    return 0
                os.remove(path)
                return 1

            attrs = 0x7 if attrs is None else attrs
'''))

I2 = "windows/capsule/inf_generator2.py"
case("i2-os-version", (I2, '''        if TargetOSVersion is None:
            self.TargetOSVersion = DEFAULT_TARGET_OSVERSION_DIRID13
        else:
            if not re.fullmatch(_TARGET_OSVERSION_RE, TargetOSVersion):
                raise ValueError(f"Invalid TargetOSVersion: {TargetOSVersion}")
            self.TargetOSVersion = TargetOSVersion

    @property
    def Name(self)''', '''        self.TargetOSVersion = _checked_os_version(TargetOSVersion)

    @property
    def Name(self)'''), (I2, '''        self.InfStrings = InfStrings
        if TargetOSVersion is None:
            self.TargetOSVersion = DEFAULT_TARGET_OSVERSION_DIRID13
        else:
            if not re.fullmatch(_TARGET_OSVERSION_RE, TargetOSVersion):
                raise ValueError(f"Invalid TargetOSVersion: {TargetOSVersion}")
            self.TargetOSVersion = TargetOSVersion
''', '''        self.InfStrings = InfStrings
        self.TargetOSVersion = _checked_os_version(TargetOSVersion)
'''), (I2, '''class InfHeader(object):''', '''def _checked_os_version(version: str | None) -> str:
    if version is None:
        return DEFAULT_TARGET_OSVERSION_DIRID13
    if re.fullmatch(_TARGET_OSVERSION_RE, version) is None:
        raise ValueError(f"Invalid TargetOSVersion: {version}")
    return version


class InfHeader(object):'''))
case("i2-name-re", (I2, '''        if not (re.compile(r"[\\w-]*")).fullmatch(value):
            raise ValueError("Name has invalid chars.")
        self._name = value
''', '''        if re.fullmatch(r"[\\w-]*", value) is None:
            raise ValueError("Name has invalid chars.")
        self._name = value
'''), (I2, '''        key = value.lower()
        if key not in SUPPORTED_ARCH.keys():
            raise ValueError("Unsupported Architecture")
        self._arch = SUPPORTED_ARCH[key]
''', '''        arch = SUPPORTED_ARCH.get(value.lower())
        if arch is None:
            raise ValueError("Unsupported Architecture")
        self._arch = arch
'''))
case("i2-key-helper", (I2, '''        if not (re.compile(r"\\w+")).fullmatch(Key):
            raise ValueError("Key has invalid chars.")
        self.LocalizableStrings[Key] = Value
''', '''        self._check_key(Key)
        self.LocalizableStrings[Key] = Value
'''), (I2, '''        if not (re.compile(r"\\w+")).fullmatch(Key):
            raise ValueError("Key has invalid chars.")
        self.NonLocalizableStrings[Key] = Value
''', '''        self._check_key(Key)
        self.NonLocalizableStrings[Key] = Value
'''), (I2, '''    def AddLocalizableString(self''', '''    @staticmethod
    def _check_key(Key: str) -> None:
        if not re.fullmatch(r"\\w+", Key):
            raise ValueError("Key has invalid chars.")

    def AddLocalizableString(self'''))
case("i2-sections-join", (I2, '''        firmwareStr = f"[Firmware.NT{self.Arch}.{self.TargetOSVersion}]\\n"
        for InfFirmware in self.Sections.values():
            firmwareStr += f"%{InfFirmware.Tag}Desc% = {InfFirmware.Tag}_Install,UEFI\\\\RES_{{{InfFirmware.EsrtGuid}}}\\n"
        firmwareStr += "\\n"
        for InfFirmware in self.Sections.values():
            firmwareStr += str(InfFirmware)
        return firmwareStr
''', '''        sections = list(self.Sections.values())
        header = f"[Firmware.NT{self.Arch}.{self.TargetOSVersion}]\\n"
        index = "".join(f"%{s.Tag}Desc% = {s.Tag}_Install,UEFI\\\\RES_{{{s.EsrtGuid}}}\\n" for s in sections)
        return header + index + "\\n" + "".join(str(s) for s in sections)
'''))
case("i2-files", (I2, '''        Files = "".join("{0} = 1\\n".format(file) for file in self.Files)
''', '''        Files = ""
        for file in self.Files:
            Files += f"{file} = 1\\n"
'''))
case("i2-strings", (I2, '''        LocalizedStrings = ""
        LongestKey = max(len(Key) for Key in self.LocalizableStrings.keys())
        for Key, Value in self.LocalizableStrings.items():
            LocalizedStrings += '{0:{width}} = "{1}"\\n'.format(Key, Value, width=LongestKey)
''', '''        LongestKey = max(map(len, self.LocalizableStrings))
        LocalizedStrings = "".join(f'{Key:{LongestKey}} = "{Value}"\\n' for Key, Value in self.LocalizableStrings.items())
'''))
case("i2-init-order", (I2, '''        self.Tag = Tag
        self.Description = Description
        self.EsrtGuid = EsrtGuid
        self.VersionInt = VersionInt
        self.FirmwareFile = FirmwareFile
        InfSourceFiles.AddFile(FirmwareFile)
        self.Rollback = Rollback
        self.IntegrityFile = IntegrityFile
        if self.IntegrityFile is not None:
            InfSourceFiles.AddFile(IntegrityFile)
''', '''        self.Description = Description
        self.Rollback = Rollback
        self.FirmwareFile = FirmwareFile
        self.IntegrityFile = IntegrityFile
        self.Tag = Tag
        self.EsrtGuid = EsrtGuid
        self.VersionInt = VersionInt
        InfSourceFiles.AddFile(self.FirmwareFile)
        if IntegrityFile is not None:
            InfSourceFiles.AddFile(IntegrityFile)
'''))

FW = "uefi/edk2/ftw_working_block_format.py"
case("ftw-guid-helper", (FW, '''class EfiFtwWorkingBlockHeader(object):''', '''def _guid_from_bytes(raw: bytes) -> uuid.UUID:
    if sys.byteorder == "big":
        return uuid.UUID(bytes=raw)
    return uuid.UUID(bytes_le=raw)


class EfiFtwWorkingBlockHeader(object):'''), (FW, '''        # Update the GUID to be a UUID object.
        if sys.byteorder == "big":
            self.Signature = uuid.UUID(bytes=signature_bin)
        else:
            self.Signature = uuid.UUID(bytes_le=signature_bin)

        # Check that signature is valid
        if self.Signature != EdkiiWorkingBlockSignatureGuid:
            raise Exception("FTW Working Block Header has unknown signature: %s" % self.Signature)
''', '''        self.Signature = _guid_from_bytes(signature_bin)
        if self.Signature != EdkiiWorkingBlockSignatureGuid:
            raise Exception("FTW Working Block Header has unknown signature: %s" % self.Signature)
'''))
case("ftw-struct-obj", (FW, '''        orig_seek = file.tell()
        struct_bytes = file.read(struct.calcsize(self.StructString))
        file.seek(orig_seek)

        # Load this object with the contents of the data.
        (
            self.StatusBits,
            self.ReservedByte1,
            self.ReservedByte2,
            self.ReservedByte3,
            self.CallerId,
''', '''        layout = struct.Struct(self.StructString)
        orig_seek = file.tell()
        struct_bytes = file.read(layout.size)
        file.seek(orig_seek)

        # Load this object with the contents of the data.
        (
            self.StatusBits,
            self.ReservedByte1,
            self.ReservedByte2,
            self.ReservedByte3,
            self.CallerId,
'''))
FH = "uefi/edk2/fmp_payload_header.py"
case("fmp-decode", (FH, '''        if Signature != self._FMP_PAYLOAD_HEADER_SIGNATURE:
            raise ValueError
        if HeaderSize < self._StructSize or HeaderSize > len(Buffer):
            raise ValueError
        self.Signature = Signature
        self.HeaderSize = HeaderSize
        self.FwVersion = FwVersion
        self.LowestSupportedVersion = LowestSupportedVersion
''', '''        valid_size = self._StructSize <= HeaderSize <= len(Buffer)
        if Signature != self._FMP_PAYLOAD_HEADER_SIGNATURE or not valid_size:
            raise ValueError
        self.Signature, self.HeaderSize = Signature, HeaderSize
        self.FwVersion, self.LowestSupportedVersion = FwVersion, LowestSupportedVersion
'''), (FH, '''        FmpPayloadHeader = struct.pack(
            self._StructFormat, self.Signature, self.HeaderSize, self.FwVersion, self.LowestSupportedVersion
        )
        return FmpPayloadHeader + self.ExtendedHeader + self.Payload
''', '''        fields = (self.Signature, self.HeaderSize, self.FwVersion, self.LowestSupportedVersion)
        return b"".join([struct.pack(self._StructFormat, *fields), self.ExtendedHeader, self.Payload])
'''))
