"""A third set of behaviour-preserving edits written by hand."""
from equiv_cases import case

DT = "uefi/edk2/build_objects/dsc_translator.py"
case("dt-headed-helper", (DT, '''    @classmethod
    def _GetDscLinesFromDscObj(''', '''    @classmethod
    def _headed(cls: "DscTranslator", sections: dict, prefix: str, pad: str, depth: int) -> list:
        out = []
        for header, contents in sections.items():
            out.append(f"{pad}[{prefix}{header}]")
            out.extend(cls._GetDscLinesFromDscObj(contents, depth))
        return out

    @classmethod
    def _GetDscLinesFromDscObj('''), (DT, '''            for header, x in obj.libraries.items():
                lines.append(f"{depth_pad}[Libraries{header}]")
                lines += cls._GetDscLinesFromDscObj(x, depth)
''', '''            lines += cls._headed(obj.libraries, "Libraries", depth_pad, depth)
'''), (DT, '''            for header, x in obj.library_classes.items():
                lines.append(f"{depth_pad}[LibraryClasses{header}]")
                lines += cls._GetDscLinesFromDscObj(x, depth)
''', '''            lines += cls._headed(obj.library_classes, "LibraryClasses", depth_pad, depth)
'''), (DT, '''            for header, x in obj.pcds.items():
                lines.append(f"{depth_pad}[{header}]")
                lines += cls._GetDscLinesFromDscObj(x, depth)
''', '''            lines += cls._headed(obj.pcds, "", depth_pad, depth)
'''))
case("dt-file-join", (DT, '''            lines = cls._GetDscLinesFromDscObj(dsc_obj)
            for line in lines:
                f.write(line + "\\n")
''', '''            for line in cls._GetDscLinesFromDscObj(dsc_obj):
                f.write(f"{line}\\n")
'''))
case("dt-component", (DT, '''        has_subsection = (
            len(comp.pcds) > 0 or len(comp.defines) > 0 or len(comp.build_options) > 0 or len(comp.library_classes) > 0
        )
        depth_pad = "".ljust(depth)
        if not has_subsection:
            return [
                f"{depth_pad}{comp.inf}",
            ]
        lines = []
        org_depth_pad = depth_pad
        depth_pad += "   "  # add two more onto our pad
        depth += 4
        lines.append(f"{org_depth_pad}{comp.inf} {{")
''', '''        org_depth_pad = " " * depth
        subsections = (comp.pcds, comp.defines, comp.build_options, comp.library_classes)
        if all(len(s) == 0 for s in subsections):
            return [f"{org_depth_pad}{comp.inf}"]
        depth_pad = org_depth_pad + "   "
        depth += 4
        lines = [f"{org_depth_pad}{comp.inf} {{"]
'''))
case("dt-component-loop", (DT, '''        if len(comp.library_classes) > 0:
            lines.append(f"{depth_pad}<LibraryClasses>")
            lines += cls._GetDscLinesFromDscObj(comp.library_classes, depth)
        if len(comp.defines) > 0:
            lines.append(f"{depth_pad}<Defines>")
            lines += cls._GetDscLinesFromDscObj(comp.defines, depth)
        if len(comp.build_options) > 0:
            lines.append(f"{depth_pad}<BuildOptions>")
            lines += cls._GetDscLinesFromDscObj(comp.build_options, depth)
''', '''        for title, contents in (
            ("LibraryClasses", comp.library_classes),
            ("Defines", comp.defines),
            ("BuildOptions", comp.build_options),
        ):
            if len(contents) > 0:
                lines.append(f"{depth_pad}<{title}>")
                lines += cls._GetDscLinesFromDscObj(contents, depth)
'''))
case("dt-pcdvar", (DT, '''            if obj.default is None:
                lines.append(f"{pcd_name}|{obj.var_guid}|{obj.var_offset}")
            elif len(obj.attributes) == 0:
                lines.append(f"{pcd_name}|{obj.var_guid}|{obj.var_offset}|{obj.default}")
            else:
                attr = ", ".join(obj.attributes)
                lines.append(f"{pcd_name}|{obj.var_guid}|{obj.var_offset}|{obj.default}|{attr}")
''', '''            pcd_str = f"{pcd_name}|{obj.var_guid}|{obj.var_offset}"
            if obj.default is not None:
                pcd_str += f"|{obj.default}"
                if len(obj.attributes) > 0:
                    pcd_str += "|" + ", ".join(obj.attributes)
            lines.append(pcd_str)
'''))

VP = "uefi/edk2/variable_policy.py"
case("vp-decode-name", (VP, '''        string_end = None
        for i in range(0, len(buffer) - 1, 2):
            if buffer[i] == 0 and buffer[i + 1] == 0:
                string_end = i + 2
                break

        if string_end is None:
            raise ValueError("String end not detected!")

        self.Name = buffer[:string_end].decode("utf-16").strip("\\x00")

        return buffer[string_end:]
''', '''        for i in range(0, len(buffer) - 1, 2):
            if buffer[i] == 0 and buffer[i + 1] == 0:
                string_end = i + 2
                self.Name = buffer[:string_end].decode("utf-16").strip("\\x00")
                return buffer[string_end:]

        raise ValueError("String end not detected!")
'''))
case("vp-decode-order", (VP, '''        self.Namespace = uuid.UUID(bytes_le=_namespace)

        self.Name = None
        self.LockPolicy = None

        if self.OffsetToName != self.Size:
            self.Name = buffer[self.OffsetToName : self.Size].decode("utf-16").strip("\\x00")

        if self.LockPolicyType == VariablePolicyEntry.TYPE_LOCK_ON_VAR_STATE:
            self.LockPolicy = VariableLockOnVarStatePolicy()
            self.LockPolicy.decode(buffer[self._HdrStructSize : self.OffsetToName])
''', '''        self.Namespace = uuid.UUID(bytes_le=_namespace)

        name_bytes = buffer[self.OffsetToName : self.Size]
        self.Name = name_bytes.decode("utf-16").strip("\\x00") if self.OffsetToName != self.Size else None

        policy = None
        if self.LockPolicyType == VariablePolicyEntry.TYPE_LOCK_ON_VAR_STATE:
            policy = VariableLockOnVarStatePolicy()
            policy.decode(buffer[self._HdrStructSize : self.OffsetToName])
        self.LockPolicy = policy
'''))
case("vp-csv", (VP, '''        result = [
            guid_xref.get(self.Namespace, self.Namespace),
            self.Name,
            VariablePolicyEntry.LOCK_POLICY_STRING_MAP[self.LockPolicyType],
        ]

        if self.LockPolicyType in (
            VariablePolicyEntry.TYPE_NO_LOCK,
            VariablePolicyEntry.TYPE_LOCK_NOW,
            VariablePolicyEntry.TYPE_LOCK_ON_CREATE,
        ):
            result += ["N/A", "N/A", "N/A"]
''', '''        simple = (
            VariablePolicyEntry.TYPE_NO_LOCK,
            VariablePolicyEntry.TYPE_LOCK_NOW,
            VariablePolicyEntry.TYPE_LOCK_ON_CREATE,
        )
        result = []
        result.append(guid_xref.get(self.Namespace, self.Namespace))
        result.append(self.Name)
        result.append(VariablePolicyEntry.LOCK_POLICY_STRING_MAP[self.LockPolicyType])

        if self.LockPolicyType in simple:
            result.extend(["N/A"] * 3)
'''))
case("vp-csv-fmt", (VP, '''            "0x%08X" % self.MinSize,
            "0x%08X" % self.MaxSize,
            str(EfiVariableAttributes(self.AttributesMustHave)),
            str(EfiVariableAttributes(self.AttributesCantHave)),
''', '''            f"0x{self.MinSize:08X}",
            f"0x{self.MaxSize:08X}",
            *[str(EfiVariableAttributes(a)) for a in (self.AttributesMustHave, self.AttributesCantHave)],
'''))
case("vp-check-order", (VP, '''        if self.Version != VariablePolicyEntry.ENTRY_REVISION:
            raise ValueError("Unknown structure version!")
        if self.LockPolicyType not in VariablePolicyEntry.LOCK_POLICY_STRING_MAP:
            raise ValueError("Unknown LockPolicyType!")
        if not self._HdrStructSize <= self.OffsetToName <= self.Size <= len(buffer):
            raise ValueError("Invalid structure size!")

        self''', '''        self._validate(len(buffer))

        self'''), (VP, '''    def __str__(self) -> str:
        """String representation of the object."""
        result = "VARIABLE_POLICY_ENTRY(''', '''    def _validate(self, available: int) -> None:
        """Checks the header fields."""
        if self.Version != VariablePolicyEntry.ENTRY_REVISION:
            raise ValueError("Unknown structure version!")
        if self.LockPolicyType not in VariablePolicyEntry.LOCK_POLICY_STRING_MAP:
            raise ValueError("Unknown LockPolicyType!")
        if self.OffsetToName < self._HdrStructSize or self.OffsetToName > self.Size or self.Size > available:
            raise ValueError("Invalid structure size!")

    def __str__(self) -> str:
        """String representation of the object."""
        result = "VARIABLE_POLICY_ENTRY('''))

GL = "uefi/edk2/guid_list.py"
case("gl-dirs-comp", (GL, '''            for d in dirs[:]:
                fullpath = os.path.join(root, d)
                if ignore(fullpath):
                    logging.debug(f"Ignore folder: {fullpath}")
                    dirs.remove(d)
''', '''            dirs[:] = [d for d in dirs if not ignore(os.path.join(root, d))]
'''), (GL, '''                new_guids = GuidList.parse_guids_from_edk2_file(fullpath)
                guids.extend(new_guids)
''', '''                guids += GuidList.parse_guids_from_edk2_file(fullpath)
'''))
case("gl-dec-loop", (GL, '''        for p in dec.Protocols:
            results.append(GuidListEntry(p.name, str(p.guid).upper(), filename))
        for p in dec.PPIs:
            results.append(GuidListEntry(p.name, str(p.guid).upper(), filename))
        for p in dec.Guids:
            results.append(GuidListEntry(p.name, str(p.guid).upper(), filename))
''', '''        for declarations in (dec.Protocols, dec.PPIs, dec.Guids):
            for p in declarations:
                results.append(GuidListEntry(p.name, str(p.guid).upper(), filename))
'''))
case("gl-dec-chain", (GL, '''        for p in dec.Protocols:
            results.append(GuidListEntry(p.name, str(p.guid).upper(), filename))
        for p in dec.PPIs:
            results.append(GuidListEntry(p.name, str(p.guid).upper(), filename))
        for p in dec.Guids:
            results.append(GuidListEntry(p.name, str(p.guid).upper(), filename))
''', '''        results = [
            GuidListEntry(p.name, str(p.guid).upper(), filename) for p in dec.Protocols + dec.PPIs + dec.Guids
        ]
'''))
case("gl-ext", (GL, '''        if filename.lower().endswith(".dec"):
            with open(filename, "r") as f:
                return GuidList.parse_guids_from_dec(f, filename)
        elif filename.lower().endswith(".inf"):
            return GuidList.parse_guids_from_inf(filename)
        else:
            return []
''', '''        lowered = filename.lower()
        if lowered.endswith(".inf"):
            return GuidList.parse_guids_from_inf(filename)
        if not lowered.endswith(".dec"):
            return []
        with open(filename) as f:
            return GuidList.parse_guids_from_dec(f, filename)
'''))

CG = "windows/capsule/cat_generator.py"
case("cg-arch-table", (CG, '''        value = value.lower()
        if (value == "x64") or (value == "amd64"):  # support amd64 value so INF and CAT tools can use same arch value
            self._arch = "X64"
        elif value == "arm":
            self._arch = "ARM"
        elif (value == "arm64") or (value == "aarch64"):  # support UEFI defined aarch64 value as well
            self._arch = "ARM64"
        else:
            logging.critical("Unsupported Architecture: %s", value)
            raise ValueError("Unsupported Architecture")
''', '''        known = {"x64": "X64", "amd64": "X64", "arm": "ARM", "arm64": "ARM64", "aarch64": "ARM64"}
        value = value.lower()
        if value not in known:
            logging.critical("Unsupported Architecture: %s", value)
            raise ValueError("Unsupported Architecture")
        self._arch = known[value]
'''))
case("cg-arch-in", (CG, '''        if (value == "x64") or (value == "amd64"):  # support amd64 value so INF and CAT tools can use same arch value
            self._arch = "X64"
        elif value == "arm":
            self._arch = "ARM"
        elif (value == "arm64") or (value == "aarch64"):  # support UEFI defined aarch64 value as well
            self._arch = "ARM64"
        else:
            logging.critical("Unsupported Architecture: %s", value)
            raise ValueError("Unsupported Architecture")
''', '''        if value in ("x64", "amd64"):
            arch = "X64"
        elif value == "arm":
            arch = "ARM"
        elif value in ("arm64", "aarch64"):
            arch = "ARM64"
        else:
            logging.critical("Unsupported Architecture: %s", value)
            raise ValueError("Unsupported Architecture")
        self._arch = arch
'''), (CG, '''        key = value.lower()
        if key not in CatGenerator.SUPPORTED_OS.keys():
            logging.critical("Unsupported Operating System: %s", key)
            raise ValueError("Unsupported Operating System")
        self._operatingsystem = CatGenerator.SUPPORTED_OS[key]
''', '''        key = value.lower()
        supported = self.SUPPORTED_OS.get(key)
        if supported is None:
            logging.critical("Unsupported Operating System: %s", key)
            raise ValueError("Unsupported Operating System")
        self._operatingsystem = supported
'''))
case("cg-makecat", (CG, '''        # Find Inf2Cat tool
        if PathToInf2CatTool is None:
            PathToInf2CatTool = FindToolInWinSdk("Inf2Cat.exe")
        # check if exists
        if PathToInf2CatTool is None or not os.path.exists(PathToInf2CatTool):
            raise Exception(
                "Can't find Inf2Cat on this machine.  Please install the Windows 10 WDK - "
                "https://developer.microsoft.com/en-us/windows/hardware/windows-driver-kit"
            )

        OutputFolder = os.path.dirname(OutputCatFile)
        # Make Cat file
        cmd = "/driver:. /os:" + self.OperatingSystem + "_" + self.Arch + " /verbose /uselocaltime"
        ret = RunCmd(PathToInf2CatTool, cmd, workingdir=OutputFolder)
''', '''        tool = self._locate_tool(PathToInf2CatTool)
        cmd = f"/driver:. /os:{self.OperatingSystem}_{self.Arch} /verbose /uselocaltime"
        ret = RunCmd(tool, cmd, workingdir=os.path.dirname(OutputCatFile))
'''), (CG, '''    def MakeCat(self''', '''    @staticmethod
    def _locate_tool(path: Optional[str]) -> str:
        tool = FindToolInWinSdk("Inf2Cat.exe") if path is None else path
        if tool is None or not os.path.exists(tool):
            raise Exception(
                "Can't find Inf2Cat on this machine.  Please install the Windows 10 WDK - "
                "https://developer.microsoft.com/en-us/windows/hardware/windows-driver-kit"
            )
        return tool

    def MakeCat(self'''))

FV = "uefi/pi_firmware_volume.py"
case("fv-guid", (FV, '''        if sys.byteorder == "big":
            self.FileSystemGuid = uuid.UUID(bytes=file_system_guid_bin)
        else:
            self.FileSystemGuid = uuid.UUID(bytes_le=file_system_guid_bin)
''', '''        key = "bytes" if sys.byteorder == "big" else "bytes_le"
        self.FileSystemGuid = uuid.UUID(**{key: file_system_guid_bin})
'''), (FV, '''        if self.Signature != EFI_FVH_SIGNATURE:
            raise Exception("File does not appear to point to a valid EfiFirmwareVolumeHeader!")

        # Update''', '''        if not self.Signature == EFI_FVH_SIGNATURE:
            raise Exception("File does not appear to point to a valid EfiFirmwareVolumeHeader!")

        # Update'''))
case("fv-local-unpack", (FV, '''        (
            self.ZeroVector,
            file_system_guid_bin,
            self.FvLength,
            self.Signature,
            self.Attributes,
            self.HeaderLength,
            self.Checksum,
            self.ExtHeaderOffset,
            self.Reserved,
            self.Revision,
            self.Blockmap0,
            self.Blockmap1,
        ) = struct.unpack(self.StructString, struct_bytes)
''', '''        fields = struct.unpack(self.StructString, struct_bytes)
        self.ZeroVector, file_system_guid_bin, self.FvLength, self.Signature = fields[:4]
        self.Attributes, self.HeaderLength, self.Checksum, self.ExtHeaderOffset = fields[4:8]
        self.Reserved, self.Revision, self.Blockmap0, self.Blockmap1 = fields[8:]
'''))
case("fv-peek", (FV, '''class EfiFirmwareVolumeHeader(object):''', '''def _peek(file: IO, fmt: str) -> tuple:
    start = file.tell()
    data = file.read(struct.calcsize(fmt))
    file.seek(start)
    return struct.unpack(fmt, data)


class EfiFirmwareVolumeHeader(object):'''), (FV, '''        orig_seek = file.tell()
        struct_bytes = file.read(struct.calcsize(self.StructString))
        file.seek(orig_seek)

        # Load this object with the contents of the data.
        (self.FileSystemGuid, self.ExtHeaderSize) = struct.unpack(self.StructString, struct_bytes)
''', '''        self.FileSystemGuid, self.ExtHeaderSize = _peek(file, self.StructString)
'''))

II = "database/tables/instanced_inf_table.py"
case("ii-lookup-loop", (II, '''        lookup = f"{arch}.{module}.{library_class_name}"
        if lookup in library_dict:
            library_instance = self._reduce_lib_instances(module, library_dict[lookup])
            if library_instance is not None:
                return library_instance

        # 4.''', '''        # 4.'''), (II, '''        lookup = f"common.{module}.{library_class_name}"
        if lookup in library_dict:
            library_instance = self._reduce_lib_instances(module, library_dict[lookup])
            if library_instance is not None:
                return library_instance

        # 5.''', '''        # 5.'''), (II, '''        lookup = f"{arch}.{library_class_name}"
        if lookup in library_dict:
            library_instance = self._reduce_lib_instances(module, library_dict[lookup])
            if library_instance is not None:
                return library_instance

        # 6.''', '''        # 6.'''), (II, '''        lookup = f"common.{library_class_name}"
        if lookup in library_dict:
            library_instance = self._reduce_lib_instances(module, library_dict[lookup])
            if library_instance is not None:
                return library_instance
''', '''        for prefix in (f"{arch}.{module}", f"common.{module}", arch, "common"):
            lookup = f"{prefix}.{library_class_name}"
            if lookup in library_dict:
                library_instance = self._reduce_lib_instances(module, library_dict[lookup])
                if library_instance is not None:
                    return library_instance
'''))
case("ii-null-loop", (II, '''        lookup = f"{arch}.{module}.null"
        null_libs.extend(library_dict.get(lookup, []))

        lookup = f"common.{module}.null"
        null_libs.extend(library_dict.get(lookup, []))

        lookup = f"{arch}.null"
        null_libs.extend(library_dict.get(lookup, []))

        lookup = "common.null"
        null_libs.extend(library_dict.get(lookup, []))
''', '''        for lookup in (f"{arch}.{module}.null", f"common.{module}.null", f"{arch}.null", "common.null"):
            null_libs.extend(library_dict.get(lookup, []))
'''))
case("ii-null-comp", (II, '''        null_libs = []

        lookup = f"{arch}.{module}.null"
        null_libs.extend(library_dict.get(lookup, []))

        lookup = f"common.{module}.null"
        null_libs.extend(library_dict.get(lookup, []))

        lookup = f"{arch}.null"
        null_libs.extend(library_dict.get(lookup, []))

        lookup = "common.null"
        null_libs.extend(library_dict.get(lookup, []))

        return null_libs
''', '''        scopes = [f"{arch}.{module}", f"common.{module}", arch, "common"]
        return [lib for s in scopes for lib in library_dict.get(f"{s}.null", [])]
'''))
case("ii-source-helper", (II, '''            sources = []
            for src in e["SOURCES_USED"]:
                if src in all_sources:
                    sources.append(all_sources[src])
                else:
                    sources.append(Source(path=src))
                    all_sources[src] = sources[-1]
''', '''            sources = []
            for src in e["SOURCES_USED"]:
                if src not in all_sources:
                    all_sources[src] = Source(path=src)
                sources.append(all_sources[src])
'''))
case("ii-reduce", (II, '''            infp = self.inf(library_instance)
            if module.lower() in [phase.lower() for phase in infp.SupportedPhases]:
                # Ensure the returned path is relative to the closest package path
                library_instance = self.pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(library_instance)
                library_instance = self.pathobj.GetEdk2RelativePathFromAbsolutePath(library_instance)
                return library_instance
''', '''            supported = self.inf(library_instance).SupportedPhases
            if not any(module.lower() == phase.lower() for phase in supported):
                continue
            absolute = self.pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(library_instance)
            return self.pathobj.GetEdk2RelativePathFromAbsolutePath(absolute)
'''))
case("ii-rec", (II, '''        # Transform path to edk2 relative form (POSIX)
        def to_posix(path: str) -> str:
            if path is None:
                return None
            return Path(path).as_posix()

        library_instance_list = list(map(to_posix, library_instance_list))
''', '''        library_instance_list = [None if path is None else Path(path).as_posix() for path in library_instance_list]
'''), (II, '''            source = (Path(full_inf).parent / source).resolve()
            # A source outside of the workspace and packages path keeps its absolute path
            relative_source = self.pathobj.GetEdk2RelativePathFromAbsolutePath(str(source))
            source_list.append(source.as_posix() if relative_source is None else relative_source)
''', '''            absolute = (Path(full_inf).parent / source).resolve()
            relative = self.pathobj.GetEdk2RelativePathFromAbsolutePath(str(absolute))
            if relative is None:
                relative = absolute.as_posix()
            source_list.append(relative)
'''))
case("ii-null-both", (II, '''            for null_lib in override_dict["NULL"]:
                library_instance_list.append(null_lib)
                library_class_list.append("NULL")

            for null_lib in self._get_null_lib_instances(scope, library_dict):
                library_instance_list.append(null_lib)
                library_class_list.append("NULL")
''', '''            null_libs = list(override_dict["NULL"]) + self._get_null_lib_instances(scope, library_dict)
            for null_lib in null_libs:
                library_instance_list.append(null_lib)
                library_class_list.append("NULL")
'''))

DP = "uefi/edk2/parsers/dec_parser.py"
case("dec-section-var", (DP, '''            # check for different sections
            if sline.strip().lower().startswith("[defines"):
                InDefinesSection = True

            elif sline.strip().lower().startswith("[libraryclasses"):
                InLibraryClassSection = True

            elif sline.strip().lower().startswith("[protocols"):
                InProtocolsSection = True
''', '''            # check for different sections
            header = sline.strip().lower()
            if header.startswith("[defines"):
                InDefinesSection = True

            elif header.startswith("[libraryclasses"):
                InLibraryClassSection = True

            elif header.startswith("[protocols"):
                InProtocolsSection = True
'''))
case("dec-defines", (DP, '''                        tokens = sline.split("=", 1)
                        self.Dict[tokens[0].strip()] = tokens[1].strip()
                        if self.PackageName is None and tokens[0].strip() == "PACKAGE_NAME":
                            self.PackageName = self.Dict["PACKAGE_NAME"]
                        continue
''', '''                        key, value = (token.strip() for token in sline.split("=", 1))
                        self.Dict[key] = value
                        if key == "PACKAGE_NAME" and self.PackageName is None:
                            self.PackageName = value
                        continue
'''))
case("dec-guided", (DP, '''        t = rawtext.partition("=")
        self.name = t[0].strip()
        self.guidstring = t[2].strip()
        self.guid = GuidParser.uuid_from_guidstring(self.guidstring)
        if self.guid is None:
            raise ValueError("Could not parse guid")
''', '''        name, _, guidstring = rawtext.partition("=")
        self.name = name.strip()
        self.guidstring = guidstring.strip()
        guid = GuidParser.uuid_from_guidstring(self.guidstring)
        self.guid = guid
        if guid is None:
            raise ValueError("Could not parse guid")
'''), (DP, '''        t = rawtext.partition("|")
        self.name = t[0].strip()
        self.path = t[2].strip()
''', '''        self.name, _, self.path = [piece.strip() for piece in rawtext.partition("|")]
'''))
case("dec-pcd", (DP, '''        if len(op) == 2 and op[0].count(".") > 0:
            pass
        # otherwise it needs at least 4 parts
        elif len(op) < 4:
            raise Exception(f"Too few parts: {op}")
        # but also less than 5
        elif len(op) > 5:
            raise Exception(f"Too many parts: {rawtext}")
        elif len(op) == 5 and op[4].strip() != "{":
            raise Exception(f"Too many parts: {rawtext}")
''', '''        parts = len(op)
        structured = parts == 2 and "." in op[0]
        if not structured:
            if parts < 4:
                raise Exception(f"Too few parts: {op}")
            if parts > 5 or (parts == 5 and op[4].strip() != "{"):
                raise Exception(f"Too many parts: {rawtext}")
'''), (DP, '''        self.type = op[2].strip() if len(op) > 2 else "STRUCTURED_PCD"
        self.id = op[3].strip() if len(op) > 2 else "STRUCTURED_PCD"
''', '''        if structured:
            self.type = self.id = "STRUCTURED_PCD"
        else:
            self.type, self.id = op[2].strip(), op[3].strip()
'''))
case("dec-parse-helper", (DP, '''            elif InProtocolsSection:
                if sline.strip()[0] == "[":
                    InProtocolsSection = False
                else:
                    t = ProtocolDeclarationEntry(self.PackageName, sline)
                    self.Protocols.append(t)
                    continue
''', '''            elif InProtocolsSection:
                if not self._is_header(sline):
                    self.Protocols.append(ProtocolDeclarationEntry(self.PackageName, sline))
                    continue
                InProtocolsSection = False
'''), (DP, '''    def _Parse(self) -> None:
        """Parses the EDK2 DEC file."""
''', '''    @staticmethod
    def _is_header(line: str) -> bool:
        return line.strip()[0] == "["

    def _Parse(self) -> None:
        """Parses the EDK2 DEC file."""
'''))

OP = "uefi/edk2/parsers/override_parser.py"
case("op-enumerate", (OP, '''        parse_lines = parse_contents.split("\\n")
        result = []

        for i in range(len(parse_lines)):
            if parse_lines[i].strip().upper().startswith("#OVERRIDE"):
                result.append({"lineno": i + 1, "line": parse_lines[i].strip()})

        return result
''', '''        result = []

        for lineno, line in enumerate(parse_contents.split("\\n"), start=1):
            stripped = line.strip()
            if stripped.upper().startswith("#OVERRIDE"):
                result.append({"lineno": lineno, "line": stripped})

        return result
'''))
case("op-comp", (OP, '''        parse_lines = parse_contents.split("\\n")
        result = []

        for i in range(len(parse_lines)):
            if parse_lines[i].strip().upper().startswith("#OVERRIDE"):
                result.append({"lineno": i + 1, "line": parse_lines[i].strip()})

        return result
''', '''        return [
            {"lineno": number + 1, "line": text.strip()}
            for number, text in enumerate(parse_contents.split("\\n"))
            if text.strip().upper().startswith("#OVERRIDE")
        ]
'''))
case("op-version", (OP, '''        try:
            result["version"] = int(line_parts[0])
        except ValueError:
            raise OpParseError(OpParseError.PE_VER)

        # Verify this is a known version and has valid number of entries
        if not ((result["version"] == FORMAT_VERSION_1[0]) and (len(line_parts) == FORMAT_VERSION_1[1])):
            raise OpParseError(OpParseError.PE_VER)
''', '''        try:
            version = int(line_parts[0])
        except ValueError:
            raise OpParseError(OpParseError.PE_VER)
        result["version"] = version

        # Verify this is a known version and has valid number of entries
        known_version, known_parts = FORMAT_VERSION_1
        if version != known_version or len(line_parts) != known_parts:
            raise OpParseError(OpParseError.PE_VER)
'''))
case("op-init", (OP, '''        # Make sure that at least some data is provided.
        if file_path is None and inf_contents is None:
            raise ValueError("file_path or inf_contents is required.")
        # Make sure not too much data is provided.
        if file_path is not None and inf_contents is not None:
            raise ValueError("Only provide file_path or inf_contents. (%s, %s)" % (file_path, inf_contents))
        # If a file path was provided, make sure it exists.
        if file_path is not None:
            if not os.path.isfile(file_path):
                raise ValueError("File path '%s' does not exist." % file_path)

        self.file_path = os.path.abspath(file_path) if file_path is not None else "String Buffer"

        # Set up the contents for parsing.
        parse_contents = inf_contents
        if file_path is not None:
            with open(file_path, "r") as file:
                parse_contents = file.read()
''', '''        if file_path is None:
            if inf_contents is None:
                raise ValueError("file_path or inf_contents is required.")
            self.file_path = "String Buffer"
            parse_contents = inf_contents
        else:
            if inf_contents is not None:
                raise ValueError("Only provide file_path or inf_contents. (%s, %s)" % (file_path, inf_contents))
            if not os.path.isfile(file_path):
                raise ValueError("File path '%s' does not exist." % file_path)
            self.file_path = os.path.abspath(file_path)
            with open(file_path, "r") as file:
                parse_contents = file.read()

'''))
