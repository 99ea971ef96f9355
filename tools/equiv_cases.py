"""Behaviour-preserving edits written by hand: (name, [(file, old, new), ...])."""
CASES = []


def case(name, *edits):
    CASES.append((name, list(edits)))


VF = "uefi/edk2/variable_format.py"
case("vf-guid-helper", (VF, '''class VariableStoreHeader(object):
    """Object''', '''def _guid_from_wire(raw):
    if sys.byteorder != "big":
        return uuid.UUID(bytes_le=raw)
    return uuid.UUID(bytes=raw)


class VariableStoreHeader(object):
    """Object'''), (VF, '''        if sys.byteorder == "big":
            self.Signature = uuid.UUID(bytes=signature_bin)
        else:
            self.Signature = uuid.UUID(bytes_le=signature_bin)

        # Check one last thing.
        if self.Signature != EfiVariableGuid and self.Signature != EfiAuthenticatedVariableGuid:
            raise Exception("VarStore is of unknown type! %s" % self.Signature)
        self.Type = "AuthVar" if self.Signature == EfiAuthenticatedVariableGuid else "Var"
''', '''        self.Signature = _guid_from_wire(signature_bin)
        if self.Signature == EfiAuthenticatedVariableGuid:
            self.Type = "AuthVar"
        elif self.Signature == EfiVariableGuid:
            self.Type = "Var"
        else:
            raise Exception(f"VarStore is of unknown type! {self.Signature}")
'''))
case("vf-unpack-fields", (VF, '''        (signature_bin, self.Size, self.Format, self.State, self.Reserved0, self.Reserved1) = struct.unpack(
            self.StructString, struct_bytes
        )
''', '''        fields = struct.unpack(self.StructString, struct_bytes)
        signature_bin = fields[0]
        self.Reserved0, self.Reserved1 = fields[4:]
        self.Size = fields[1]
        self.Format, self.State = fields[2:4]
'''))
case("vf-serialize-parts", (VF, '''        signature_bin = self.Signature.bytes if sys.byteorder == "big" else self.Signature.bytes_le
        return struct.pack(
            self.StructString, signature_bin, self.Size, self.Format, self.State, self.Reserved0, self.Reserved1
        )
''', '''        if sys.byteorder == "big":
            signature_bin = self.Signature.bytes
        else:
            signature_bin = self.Signature.bytes_le
        values = (signature_bin, self.Size, self.Format, self.State, self.Reserved0, self.Reserved1)
        return struct.pack(self.StructString, *values)
'''))

FMP = "uefi/fmp_capsule_header.py"
case("fmp-decode-guards", (FMP, '''        if Version < self.EFI_FIRMWARE_MANAGEMENT_CAPSULE_IMAGE_HEADER_INIT_VERSION:
            raise ValueError
        if UpdateImageIndex < 1:
            raise ValueError
        if UpdateImageSize + UpdateVendorCodeSize != len(Buffer[self._StructSize :]):
            raise ValueError
''', '''        body_size = UpdateImageSize + UpdateVendorCodeSize
        version_ok = Version >= self.EFI_FIRMWARE_MANAGEMENT_CAPSULE_IMAGE_HEADER_INIT_VERSION
        if not version_ok or UpdateImageIndex <= 0:
            raise ValueError("bad FMP image header")
        if len(Buffer[self._StructSize :]) != body_size:
            raise ValueError("bad FMP image size")
'''))
case("fmp-encode-list", (FMP, '''        FmpCapsuleImageHeader = struct.pack(
            self._StructFormat,
            self.Version,
            self.UpdateImageTypeId.bytes_le,
            self.UpdateImageIndex,
            0,
            0,
            0,
            self.UpdateImageSize,
            self.UpdateVendorCodeSize,
            self.UpdateHardwareInstance,
        )
        return FmpCapsuleImageHeader + self.Payload + self.VendorCodeBytes
''', '''        reserved = (0, 0, 0)
        header = struct.pack(
            self._StructFormat,
            self.Version,
            self.UpdateImageTypeId.bytes_le,
            self.UpdateImageIndex,
            *reserved,
            self.UpdateImageSize,
            self.UpdateVendorCodeSize,
            self.UpdateHardwareInstance,
        )
        return b"".join((header, self.Payload, self.VendorCodeBytes))
'''))

BP = "uefi/edk2/parsers/base_parser.py"
case("bp-findpath-helper", (BP, '''        # If the absolute path exists, return it.
        Path = os.path.join(self.RootPath, *p)
        if os.path.exists(Path):
            return os.path.abspath(Path)

        # If that fails, check a path relative to the target file.
        if self.TargetFilePath is not None:
            Path = os.path.abspath(os.path.join(os.path.dirname(self.TargetFilePath), *p))
            if os.path.exists(Path):
                return os.path.abspath(Path)

''', '''        under_root = os.path.join(self.RootPath, *p)
        if os.path.exists(under_root):
            return os.path.abspath(under_root)
        beside_target = self._BesideTarget(*p)
        if beside_target is not None:
            return beside_target

'''), (BP, '''    def WriteLinesToFile(self''', '''    def _BesideTarget(self, *p):
        if self.TargetFilePath is None:
            return None
        candidate = os.path.abspath(os.path.join(os.path.dirname(self.TargetFilePath), *p))
        if not os.path.exists(candidate):
            return None
        return os.path.abspath(candidate)

    def WriteLinesToFile(self'''))
case("bp-conditional-keyword", (BP, '''        if tokens[0].lower() in ["!if", "!ifdef", "!ifndef"] and not self.InActiveCode():''', '''        keyword = tokens[0].lower()
        if not self.InActiveCode() and keyword in ("!if", "!ifdef", "!ifndef"):'''),
     (BP, '''        elif tokens[0].lower() == "!if":''', '''        if keyword == "!if":'''), (BP, '''        elif tokens[0].lower() == "!elseif":''', '''        if keyword == "!elseif":'''),
     (BP, '''        elif tokens[0].lower() == "!ifdef":''', '''        if keyword == "!ifdef":'''), (BP, '''        elif tokens[0].lower() == "!ifndef":''', '''        if keyword == "!ifndef":'''),
     (BP, '''        elif tokens[0].lower() == "!else":''', '''        if keyword == "!else":'''), (BP, '''        elif tokens[0].lower() == "!endif":''', '''        if keyword == "!endif":'''))
case("bp-else-oneline", (BP, '''            if already_been_true:
                self.PushConditional(False, True)
            else:
                self.PushConditional(True, True)
            return True
''', '''            self.PushConditional(not already_been_true, True)
            return True
'''))
case("bp-elseif-flat", (BP, '''            if not self.InActiveCode():
                (_, already_been_true) = self.PopConditional()

                if already_been_true:
                    self.PushConditional(False, True)
                else:
                    result = self.EvaluateConditional(text)
                    self.PushConditional(result, result)
            # already in active code, i.e. the previous if/elseif was true
            else:
                self.PopConditional()
                self.PushConditional(False, True)
            return True
''', '''            was_active = self.InActiveCode()
            (_, already_been_true) = self.PopConditional()
            if was_active or already_been_true:
                self.PushConditional(False, True)
                return True
            outcome = self.EvaluateConditional(text)
            self.PushConditional(outcome, outcome)
            return True
'''))
case("bp-ifdef-shared", (BP, '''        elif tokens[0].lower() == "!ifdef":
            if len(tokens) != 2:
                self.Logger.error("!ifdef conditionals need to be formatted correctly (spaces between each token)")
                raise RuntimeError("Invalid conditional", text)
            result = tokens[1] != self._MacroNotDefinedValue
            self.PushConditional(result, result)
            return True

        elif tokens[0].lower() == "!ifndef":
            if len(tokens) != 2:
                self.Logger.error("!ifdef conditionals need to be formatted correctly (spaces between each token)")
                raise RuntimeError("Invalid conditional", text)
            result = tokens[1] == self._MacroNotDefinedValue
            self.PushConditional(result, result)
            return True
''', '''        elif tokens[0].lower() in ("!ifdef", "!ifndef"):
            if len(tokens) != 2:
                self.Logger.error("conditional needs one operand")
                raise RuntimeError("Invalid conditional", text)
            defined = tokens[1] != self._MacroNotDefinedValue
            result = defined if tokens[0].lower() == "!ifdef" else not defined
            self.PushConditional(result, result)
            return True
'''))
case("bp-eval-next", (BP, '''            first_operand_index = -1
            # find the first operator
            for index, item in enumerate(expression):
                if self._IsOperator(item):
                    first_operand_index = index
                    break
            if first_operand_index == -1:
                raise RuntimeError(f"We didn't find an operator to execute in {expression}: {text}")
''', '''            first_operand_index = next((i for i, item in enumerate(expression) if self._IsOperator(item)), None)
            if first_operand_index is None:
                raise RuntimeError(f"We didn't find an operator to execute in {expression}: {text}")
'''))

DB = "database/edk2_db.py"
case("db-session-else", (DB, '''            yield session
            session.commit()
        except Exception as e:
            session.rollback()
            raise e
        finally:
            session.close()
''', '''            yield session
            session.commit()
        except Exception:
            session.rollback()
            raise
        finally:
            session.close()
'''))
case("db-parse-helper", (DB, '''            with self.session() as session:
                table.parse(session, self.pathobj, id, env)
''', '''            self._run_table(table, id, env)
'''), (DB, '''class TableGenerator:
''', '''
class TableGenerator:
'''), (DB, '''    def parse(self, env: dict) -> None:
        """Runs''', '''    def _run_table(self, table, id, env):
        with self.session() as session:
            table.parse(session, self.pathobj, id, env)

    def parse(self, env: dict) -> None:
        """Runs'''))
case("db-register-extend", (DB, '''        for parser in parsers:
            self._parsers.append(parser)
''', '''        self._parsers.extend(parsers)
'''))

ST = "database/tables/source_table.py"
case("source-reuse", (ST, '''            if source.path not in existing_source:
                existing_source[source.path] = source
                to_add.append(source)
            else:
                to_add.append(existing_source[source.path])
                to_add[-1].license = source.license
                to_add[-1].total_lines = source.total_lines
                to_add[-1].code_lines = source.code_lines
                to_add[-1].comment_lines = source.comment_lines
                to_add[-1].blank_lines = source.blank_lines
''', '''            known = existing_source.get(source.path)
            if known is None:
                existing_source[source.path] = source
                to_add.append(source)
                continue
            known.license = source.license
            known.total_lines = source.total_lines
            known.code_lines = source.code_lines
            known.comment_lines = source.comment_lines
            known.blank_lines = source.blank_lines
            to_add.append(known)
'''))
case("source-files-comp", (ST, '''        files = []
        for src in self.source_extensions:
            files.extend(list(ws.rglob(src)))
        files = [file for file in files if file.is_file() and not file.is_relative_to(ws / "Build")]
''', '''        build = ws / "Build"
        files = [
            file
            for src in self.source_extensions
            for file in ws.rglob(src)
            if file.is_file() and not file.is_relative_to(build)
        ]
'''))

UF = "utility_functions.py"
case("reader-with-iter", (UF, '''            if f is not None:
                # write to file if caller provided file
                f.write(s)
            if outstream is not None:
                # write to stream object if caller provided object
                outstream.write(s)
''', '''            for sink in (f, outstream):
                if sink is not None:
                    sink.write(s)
'''))
case("reader-finally-order", (UF, '''        stream.close()
        if f is not None:
            f.close()
''', '''        try:
            stream.close()
        finally:
            if f is not None:
                f.close()
'''))

IV = "acpi/ivrs_parser.py"
case("ivrs-type-tuples", (IV, '''            if (
                (remapping_header.Type == IVRS_TABLE.IVHD_STRUCT.IVHD_TYPE.TYPE_10H)
                or (remapping_header.Type == IVRS_TABLE.IVHD_STRUCT.IVHD_TYPE.TYPE_11H)
                or (remapping_header.Type == IVRS_TABLE.IVHD_STRUCT.IVHD_TYPE.TYPE_40H)
            ):
                remapping_header = self.IVHD_STRUCT(t_data)
                self.addIVHDEntry(remapping_header)
            elif (
                (remapping_header.Type == IVRS_TABLE.IVMD_STRUCT.IVMD_TYPE.TYPE_20H)
                or (remapping_header.Type == IVRS_TABLE.IVMD_STRUCT.IVMD_TYPE.TYPE_21H)
                or (remapping_header.Type == IVRS_TABLE.IVMD_STRUCT.IVMD_TYPE.TYPE_22H)
            ):
''', '''            ivhd = IVRS_TABLE.IVHD_STRUCT.IVHD_TYPE
            ivmd = IVRS_TABLE.IVMD_STRUCT.IVMD_TYPE
            kind = remapping_header.Type
            if kind in (ivhd.TYPE_10H, ivhd.TYPE_11H, ivhd.TYPE_40H):
                remapping_header = self.IVHD_STRUCT(t_data)
                self.addIVHDEntry(remapping_header)
            elif kind in (ivmd.TYPE_20H, ivmd.TYPE_21H, ivmd.TYPE_22H):
'''))
case("ivrs-offset-loop", (IV, '''        while len(t_data) > 0:
            # Get type''', '''        while t_data:
            # Get type'''), (IV, '''        if (self.acpi_header.Length != t_length) or (len(t_data) != 0):
            raise''', '''        if self.acpi_header.Length != t_length:
            raise'''))
case("ivrs-encode-join", (IV, '''        bytes_str = b""

        # Append ACPI header
        bytes_str += self.acpi_header.Encode()

        # All IVHD/IVMD entries
        for ivxd in self.SubStructs:
            bytes_str += ivxd.Encode()
        return bytes_str
''', '''        return self.acpi_header.Encode() + b"".join(entry.Encode() for entry in self.SubStructs)
'''))

DM = "acpi/dmar_parser.py"
case("dmar-xml-table", (DM, '''            xml_repr.set("HostAddressWidth", "0x%X" % self.HostAddressWidth)
            xml_repr.set("Flags", "0x%X" % self.Flags)
            return xml_repr
''', '''            for name in ("HostAddressWidth", "Flags"):
                xml_repr.set(name, "0x%X" % getattr(self, name))
            return xml_repr
'''))
case("dmar-unpack-local", (DM, '''            (self.Type, self.Length) = struct.unpack_from(
                DMARTable.RemappingStructHeader.STRUCT_FORMAT, header_byte_array
            )
''', '''            size = struct.calcsize(self.STRUCT_FORMAT)
            kind, length = struct.unpack(self.STRUCT_FORMAT, header_byte_array[:size])
            self.Type = kind
            self.Length = length
'''))

PU = "uefi/edk2/path_utilities.py"
case("pu-rel-for-else", (PU, '''        relpath = None
        found = False

''', ''''''), (PU, '''            if abspath.is_relative_to(packagepath):
                self.logger.debug("Successfully converted AbsPath to Edk2Relative Path using PackagePath")
                relpath = abspath.relative_to(packagepath)
                found = True
                break

        # If a match was not found, check if absolute path is based on the workspace root.
        if not found and abspath.is_relative_to(self._workspace_path):
            self.logger.debug("Successfully converted AbsPath to Edk2Relative Path using WorkspacePath")
            relpath = abspath.relative_to(self._workspace_path)
            found = True

        if found:
            relpath = relpath.as_posix()
            self.logger.debug(f"[{abspath}] -> [{relpath}]")
            return relpath
''', '''            if abspath.is_relative_to(packagepath):
                return abspath.relative_to(packagepath).as_posix()

        # If a match was not found, check if absolute path is based on the workspace root.
        if abspath.is_relative_to(self._workspace_path):
            return abspath.relative_to(self._workspace_path).as_posix()
'''))
case("pu-abs-roots", (PU, '''        abspath = self._workspace_path / relpath
        if abspath.exists():
            return str(abspath)

        for a in self._package_path_list:
            abspath = a / relpath
            if abspath.exists():
                return str(abspath)
''', '''        for root in [self._workspace_path, *self._package_path_list]:
            candidate = root / relpath
            if candidate.exists():
                return str(candidate)
'''))
case("pu-containing-any", (PU, '''                for f in dirpath.iterdir():
                    if f.suffix.lower() == ".dec":
                        return dirpath.name
''', '''                if any(f.suffix.lower() == ".dec" for f in dirpath.iterdir()):
                    return dirpath.name
'''), (PU, '''        if InputPath.is_dir():
            dirpath = InputPath
        else:
            dirpath = InputPath.parent

        while path_root != dirpath and''', '''        dirpath = InputPath if InputPath.is_dir() else InputPath.parent

        while dirpath != path_root and'''))
case("pu-containing-root", (PU, '''        path_root = None
        if not InputPath.is_relative_to(self._workspace_path):
            for p in self._package_path_list:
                if InputPath.is_relative_to(p):
                    path_root = p
                    break
            if not path_root:
                return None
        else:
            path_root = self._workspace_path
''', '''        path_root = self._root_of(InputPath)
        if path_root is None:
            return None
'''), (PU, '''    def GetContainingPackage(self''', '''    def _root_of(self, path):
        if path.is_relative_to(self._workspace_path):
            return self._workspace_path
        for candidate in self._package_path_list:
            if path.is_relative_to(candidate):
                return candidate
        return None

    def GetContainingPackage(self'''))

GP = "uefi/edk2/parsers/guid_parser.py"
case("guid-fields", (GP, '''            return "%08x-%04x-%04x-%02x%02x-%02x%02x%02x%02x%02x%02x" % (
                int(guidValueList[0], 16),
                int(guidValueList[1], 16),
                int(guidValueList[2], 16),
                int(guidValueList[3], 16),
                int(guidValueList[4], 16),
                int(guidValueList[5], 16),
                int(guidValueList[6], 16),
                int(guidValueList[7], 16),
                int(guidValueList[8], 16),
                int(guidValueList[9], 16),
                int(guidValueList[10], 16),
            )
''', '''            numbers = tuple(int(value, 16) for value in guidValueList)
            return "%08x-%04x-%04x-%02x%02x-%02x%02x%02x%02x%02x%02x" % numbers
'''))
case("guid-c-join", (GP, '''        for Index in range(0, 3, 1):
            Result = Result + "0x" + GuidList[Index] + ", "
''', '''        for part in GuidList[:3]:
            Result += f"0x{part}, "
'''))

AV = "uefi/authenticated_variables_structure_support.py"
case("esl-read-header", (AV, '''        self.signature_list_size = struct.unpack("<I", fs.read(4))[0]
        self.signature_header_size = struct.unpack("<I", fs.read(4))[0]
        self.signature_size = struct.unpack("<I", fs.read(4))[0]
''', '''        (self.signature_list_size, self.signature_header_size, self.signature_size) = struct.unpack("<3I", fs.read(12))
'''))
case("esl-loop-cond", (AV, '''        while (start + self.signature_list_size) > fs.tell():
            # double check that everything is adding up correctly.
            if (start + self.signature_list_size - fs.tell() - self.signature_size) < 0:
                raise Exception("Invalid Signature List Processing.  Signature Data not correctly parsed!!")
            a = EfiSignatureDataFactory.factory(fs, self.signature_type, self.signature_size)
            self.signature_data_list.append(a)
''', '''        list_end = start + self.signature_list_size
        while fs.tell() < list_end:
            remaining = list_end - fs.tell()
            if remaining < self.signature_size:
                raise Exception("Invalid Signature List Processing.  Signature Data not correctly parsed!!")
            self.signature_data_list.append(
                EfiSignatureDataFactory.factory(fs, self.signature_type, self.signature_size)
            )
'''))
case("esl-write-pack", (AV, '''        fs.write(self.signature_type.bytes_le)
        fs.write(struct.pack("<I", self.signature_list_size))
        fs.write(struct.pack("<I", self.signature_header_size))
        fs.write(struct.pack("<I", self.signature_size))
        if self.signature_header is not None:
            self.signature_header.write(fs)
''', '''        sizes = (self.signature_list_size, self.signature_header_size, self.signature_size)
        fs.write(self.signature_type.bytes_le + struct.pack("<III", *sizes))
        if self.signature_header is not None:
            self.signature_header.write(fs)
'''))
case("esl-guard-merge", (AV, '''        if self.signature_list_size < EfiSignatureList.STATIC_STRUCT_SIZE:
            raise Exception("Invalid Sig List.  signature_list_size does not cover the list's own header")

        # check the total size of this is within the File
        if (end - start) < self.signature_list_size:
''', '''        available = end - start
        if not (EfiSignatureList.STATIC_STRUCT_SIZE <= self.signature_list_size <= available):
'''))
case("esl-create-dispatch", (AV, '''        if type == EfiSignatureDataFactory.EFI_CERT_SHA256_GUID:
            return EfiSignatureDataEfiCertSha256(createfs=ContentFileStream, sigowner=sigowner)
        elif type == EfiSignatureDataFactory.EFI_CERT_X509_GUID:
            return EfiSignatureDataEfiCertX509(createfs=ContentFileStream, sigowner=sigowner)
        else:
            raise Exception("Not Supported")
''', '''        if type == EfiSignatureDataFactory.EFI_CERT_SHA256_GUID:
            cls = EfiSignatureDataEfiCertSha256
        elif type == EfiSignatureDataFactory.EFI_CERT_X509_GUID:
            cls = EfiSignatureDataEfiCertX509
        else:
            raise Exception("Not Supported")
        return cls(createfs=ContentFileStream, sigowner=sigowner)
'''))

TP = "tpm/tpm2_policy_calc.py"
case("policy-or-loop", (TP, '''        concat_policy_buffer = b"\\x00" * hash_obj.get_size()
        concat_policy_buffer += struct.pack(">L", t2d.TPM_CC_PolicyOR)
        concat_policy_buffer += b"".join([component.get_policy(hash_obj) for component in self.components])
        return concat_policy_buffer
''', '''        buffer = bytes(hash_obj.get_size()) + t2d.TPM_CC_PolicyOR.to_bytes(4, "big")
        for component in self.components:
            buffer += component.get_policy(hash_obj)
        return buffer
'''))
case("policy-validate-all", (TP, '''        result = True

        for component in self.components:
            # All components must be convertible into a policy.
            if not hasattr(component, "get_policy"):
                result = False

            # All components must also be valid.
            if not hasattr(component, "validate") or not component.validate():
                result = False

        return result
''', '''        for component in self.components:
            if not hasattr(component, "get_policy") or not hasattr(component, "validate"):
                return False
            if not component.validate():
                return False
        return True
'''))

JU = "log/junit_report_format.py"
case("junit-finish", (JU, '''        if self.Status != JunitReportTestCase.NEW:
            raise Exception("Can't Set to success.  State must be in NEW")
        self.Status = JunitReportTestCase.SUCCESS
        self.Time = time.time() - self._StartTime
''', '''        self._finish(JunitReportTestCase.SUCCESS, "success")
'''), (JU, '''        if self.Status != JunitReportTestCase.NEW:
            raise Exception("Can't Set to skipped.  State must be in NEW")
        self.Status = JunitReportTestCase.SKIPPED
        self.Time = time.time() - self._StartTime
''', '''        self._finish(JunitReportTestCase.SKIPPED, "skipped")
'''), (JU, '''    def SetSuccess(self''', '''    def _finish(self, status, word):
        if self.Status != JunitReportTestCase.NEW:
            raise Exception(f"Can't Set to {word}.  State must be in NEW")
        self.Time = time.time() - self._StartTime
        self.Status = status

    def SetSuccess(self'''))
case("junit-counts", (JU, '''        Errors = 0
        Failures = 0
        Skipped = 0
        Tests = len(self.TestCases)

        for a in self.TestCases:
            if a.Status == JunitReportTestCase.FAILED:
                Failures += 1
            elif a.Status == JunitReportTestCase.ERROR:
                Errors += 1
            elif a.Status == JunitReportTestCase.SKIPPED:
                Skipped += 1
''', '''        statuses = [case.Status for case in self.TestCases]
        Tests = len(statuses)
        Failures = statuses.count(JunitReportTestCase.FAILED)
        Errors = statuses.count(JunitReportTestCase.ERROR)
        Skipped = statuses.count(JunitReportTestCase.SKIPPED)
'''))
case("junit-output-parts", (JU, '''            outstream.write('<skipped type="skipped">')
            outstream.write(self.StdOut)
            outstream.write("</skipped>")
''', '''            outstream.write(f'<skipped type="skipped">{self.StdOut}</skipped>')
'''))

IP = "uefi/edk2/parsers/inf_parser.py"
case("inf-scoped-helper", (IP, '''        libraries = self.ScopedLibraryDict.get("common", []).copy()

        for arch in arch_list:
            libraries = libraries + self.ScopedLibraryDict.get(arch.lower(), []).copy()
        return list(set(libraries))
''', '''        return self._in_scope(self.ScopedLibraryDict, arch_list)
'''), (IP, '''        sources = self.ScopedSourceDict.get("common", []).copy()

        for arch in arch_list:
            sources = sources + self.ScopedSourceDict.get(arch.lower(), []).copy()
        return list(set(sources))
''', '''        return self._in_scope(self.ScopedSourceDict, arch_list)
'''), (IP, '''    def get_sources(self''', '''    @staticmethod
    def _in_scope(scoped, arch_list):
        found = list(scoped.get("common", []))
        for arch in arch_list:
            found = found + list(scoped.get(arch.lower(), []))
        return list(set(found))

    def get_sources(self'''))
case("inf-scoped-set", (IP, '''        libraries = self.ScopedLibraryDict.get("common", []).copy()

        for arch in arch_list:
            libraries = libraries + self.ScopedLibraryDict.get(arch.lower(), []).copy()
        return list(set(libraries))
''', '''        found = set(self.ScopedLibraryDict.get("common", []))
        for arch in arch_list:
            found.update(self.ScopedLibraryDict.get(arch.lower(), []))
        return list(found)
'''))
case("inf-findpath", (IP, '''        if not os.path.isabs(filepath):
            fp = self.FindPath(filepath)
        else:
            fp = filepath
        if fp is None:
            raise FileNotFoundError(filepath)
        self.Path = fp
        with open(fp, "r") as f:
            self.Lines = f.readlines()
''', '''        fp = filepath if os.path.isabs(filepath) else self.FindPath(filepath)
        if fp is None:
            raise FileNotFoundError(filepath)
        with open(fp) as inf_file:
            self.Lines = inf_file.readlines()
        self.Path = fp
'''))
case("inf-define-partition", (IP, '''                tokens = sline.strip().replace("DEFINE", "").split("=", 1)
                self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                continue
''', '''                definition = sline.strip().replace("DEFINE", "")
                key, value = (token.strip() for token in definition.split("=", 1))
                self.LocalVars[key] = value
                self.Logger.info(f"Key,values found for local vars: {key}, {value}")
                continue
'''))
