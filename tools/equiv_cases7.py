"""Equivalence cases, seventh part: one place of a long function rewritten."""
from equiv_cases import case

F = "uefi/edk2/parsers/fdf_parser.py"
INF = "uefi/edk2/parsers/inf_parser.py"
II = "database/tables/instanced_inf_table.py"
IT = "database/tables/inf_table.py"
FV = "database/tables/instanced_fv_table.py"
A = "log/ansi_handler.py"
U = "utility_functions.py"
P = "uefi/edk2/path_utilities.py"
BP = "uefi/edk2/parsers/base_parser.py"

case("f7-flags-chain", (F, '''                InDefinesSection = False
                InFdSection = False
                InFvSection = False
                InCapsuleSection = False
                InFmpPayloadSection = False
                InRuleSection = False
                self.LocalVars = {}
                self.LocalVars.update(self.Dict)
''', '''                InDefinesSection = InFdSection = InFvSection = False
                InCapsuleSection = InFmpPayloadSection = InRuleSection = False
                self.LocalVars = dict(self.Dict)
'''))
case("f7-bracket-delta", (F, '''            self._BracketCount += sline.count("{")
            self._BracketCount -= sline.count("}")
''', '''            self._BracketCount += sline.count("{") - sline.count("}")
'''))
case("f7-open-list", (F, '''        self._OpenFiles = [(path, left) for (path, left) in self._OpenFiles if left <= remaining]
''', '''        still_open = []
        for path, left in self._OpenFiles:
            if left <= remaining:
                still_open.append((path, left))
        self._OpenFiles = still_open
'''))
case("f7-inf-direct", (F, '''                        InfValue = sline[3:].strip()
                        self.FVs[section]["Infs"].append(InfValue)
''', '''                        self.FVs[section]["Infs"].append(sline[len("INF"):].strip())
'''))
case("f7-sections-loop", (F, '''                self.CurrentSection = [
                    x.split(".", 1)[1] if "." in x else x for x in sline.strip("[] ").strip().split(",")
                ]
''', '''                self.CurrentSection = []
                for name in sline.strip("[] ").strip().split(","):
                    if "." in name:
                        name = name.split(".", 1)[1]
                    self.CurrentSection.append(name)
'''))
case("f7-sections-partition", (F, '''x.split(".", 1)[1] if "." in x else x for x in''', '''x.partition(".")[2] if "." in x else x for x in'''))
case("f7-header-order", (F, '''                InRuleSection = False
                self.LocalVars = {}
                self.LocalVars.update(self.Dict)
''', '''                self.LocalVars = {}
                self.LocalVars.update(self.Dict)
                InRuleSection = False
'''))
case("f7-while-true", (F, '''        sline = ""
        while sline is not None:
            sline = self.GetNextLine()

            if sline is None:
                break

            if sline.lower()''', '''        while True:
            sline = self.GetNextLine()

            if sline is None:
                break

            if sline.lower()'''))
case("f7-section-helper", (F, '''                                section_def = sline[7:].strip().split("=", 1)
                                sectionType = section_def[0].strip()  # UI in this example
                                sectionValue = section_def[1].strip()
''', '''                                sectionType, sectionValue = [x.strip() for x in sline[7:].strip().split("=", 1)]
'''))
case("f7-section-in", (F, '''                                sline.upper().startswith("SECTION") and sline.upper().count("=") > 0
''', '''                                sline.upper().startswith("SECTION") and "=" in sline
'''))
case("i7-define-shared", (INF, '''                if sline.strip()[0] == "[":
                    InPackagesSection = False
                else:
                    self.PackagesUsed.append(sline.partition("|")[0].strip())
                    continue
''', '''                if not sline.strip().startswith("["):
                    self.PackagesUsed.append(sline.split("|")[0].strip())
                    continue
                InPackagesSection = False
'''))
case("i7-libs-extend", (INF, '''        libraries = self.ScopedLibraryDict.get("common", []).copy()

        for arch in arch_list:
            libraries = libraries + self.ScopedLibraryDict.get(arch.lower(), []).copy()
        return list(set(libraries))
''', '''        libraries = set(self.ScopedLibraryDict.get("common", []))

        for arch in arch_list:
            libraries.update(self.ScopedLibraryDict.get(arch.lower(), []))
        return list(libraries)
'''))
case("i7-phases", (INF, '''                            if len(tokens[1].partition("|")[2].strip()) < 1:
                                self.SupportedPhases = AllPhases.copy()
                            elif tokens[1].partition("|")[2].strip().lower() == "base":
                                self.SupportedPhases = AllPhases.copy()
                            else:
                                self.SupportedPhases = tokens[1].partition("|")[2].strip().split()
''', '''                            phases = tokens[1].partition("|")[2].strip()
                            if not phases or phases.lower() == "base":
                                self.SupportedPhases = AllPhases.copy()
                            else:
                                self.SupportedPhases = phases.split()
'''))
case("ii7-source-append", (II, '''                if src in all_sources:
                    sources.append(all_sources[src])
                else:
                    sources.append(Source(path=src))
                    all_sources[src] = sources[-1]
''', '''                if src not in all_sources:
                    all_sources[src] = Source(path=src)
                sources.append(all_sources[src])
'''))
case("ii7-source-get", (II, '''                if src in all_sources:
                    sources.append(all_sources[src])
                else:
                    sources.append(Source(path=src))
                    all_sources[src] = sources[-1]
''', '''                source = all_sources.get(src)
                if source is None:
                    source = Source(path=src)
                    all_sources[src] = source
                sources.append(source)
'''))
case("ii7-link", (II, '''            libraries = [all_libraries.get((path, row.arch, lib, row.component)) for lib, path in inf["LIBRARIES_USED"]]
            row.libraries.extend([lib for lib in libraries if lib is not None])
''', '''            for lib, path in inf["LIBRARIES_USED"]:
                library = all_libraries.get((path, row.arch, lib, row.component))
                if library is not None:
                    row.libraries.append(library)
'''))
case("ii7-cache", (II, '''        if inf in self._parsed_infs:
            infp = self._parsed_infs[inf]
        else:
            infp = InfP().SetEdk2Path(self.pathobj)
            infp.ParseFile(inf)
            self._parsed_infs[inf] = infp
        return infp
''', '''        if inf not in self._parsed_infs:
            infp = InfP().SetEdk2Path(self.pathobj)
            infp.ParseFile(inf)
            self._parsed_infs[inf] = infp
        return self._parsed_infs[inf]
'''))
case("ii7-scope", (II, '''                scope = scope.split(".")[0]
''', '''                scope = scope.partition(".")[0]
'''))
case("ii7-repo", (II, '''                    if repo.path is None:
                        return False
                    return Path(e["FULL_PATH"]).is_relative_to(Path(self.pathobj.WorkspacePath, repo.path))
''', '''                    return repo.path is not None and Path(e["FULL_PATH"]).is_relative_to(
                        Path(self.pathobj.WorkspacePath, repo.path)
                    )
'''))
case("it7-skip-merge", (IT, '''            if entry.guid == "":
                continue
            if entry.path in all_inf:
                continue
            for source''', '''            if entry.guid == "" or entry.path in all_inf:
                continue
            for source'''))
case("it7-source-helper", (IT, '''            for source in source_list:
                if source not in all_source:
                    all_source[source] = Source(path=source)
                entry.sources.append(all_source[source])
''', '''            for path in source_list:
                known = all_source.get(path)
                if known is None:
                    known = all_source[path] = Source(path=path)
                entry.sources.append(known)
'''))
case("it7-order", (IT, '''            to_add.append(entry)
            all_inf[entry.path] = entry
''', '''            all_inf[entry.path] = entry
            to_add.append(entry)
'''))
case("it7-files", (IT, '''        files = list(ws.glob("**/*.inf"))
        files = [file for file in files if not file.is_relative_to(ws / "Build")]
''', '''        build = ws / "Build"
        files = [file for file in ws.glob("**/*.inf") if not file.is_relative_to(build)]
'''))
case("fv7-filter", (FV, '''            filtered = []
            for inf in inf_list:
                if inf not in all_components:
                    logging.warning(f"INF [{inf}] not found in database.")
                else:
                    filtered.append(inf)

            fv = Fv(env=env_id, name=fv, fdf=self.fdf, infs=[all_components.get(inf) for inf in filtered])
''', '''            infs = []
            for inf in inf_list:
                if inf in all_components:
                    infs.append(all_components[inf])
                else:
                    logging.warning(f"INF [{inf}] not found in database.")

            fv = Fv(env=env_id, name=fv, fdf=self.fdf, infs=infs)
'''))
case("fv7-options", (FV, '''                if len(options) > 0:
                    inf = options[0][1]
''', '''                if options:
                    _, inf = options[0]
'''))
case("fv7-items", (FV, '''        for fv in fdfp.FVs:
            inf_list = []  # Some INF's have extra options. We only need the INF
            for inf in fdfp.FVs[fv]["Infs"]:
''', '''        for fv, contents in fdfp.FVs.items():
            inf_list = []  # Some INF's have extra options. We only need the INF
            for inf in contents["Infs"]:
'''))
case("a7-cursor", (A, '''        cursor = 0
        for match in self.ANSI_CSI_RE.finditer(text):
            start, end = match.span()
            if cursor < start:
                self.write_plain_text(text, cursor, start)
            self.convert_ansi(*match.groups())
            cursor = end
''', '''        cursor = 0
        for match in self.ANSI_CSI_RE.finditer(text):
            if match.start() > cursor:
                self.write_plain_text(text, cursor, match.start())
            self.convert_ansi(*match.groups())
            cursor = match.end()
'''))
case("a7-params", (A, '''        params = tuple(int(p) for p in paramstring.split(";") if len(p) != 0)
        if len(params) == 0:
            params = (0,)

        return params
''', '''        params = []
        for p in paramstring.split(";"):
            if p:
                params.append(int(p))
        return tuple(params) or (0,)
'''))
case("a7-call", (A, '''        if command == "m":
            for param in params:
                if param in self.win32_calls:
                    func_args = self.win32_calls[param]
                    func = func_args[0]
                    args = func_args[1:]
                    kwargs = dict()
                    func(*args, **kwargs)
''', '''        if command != "m":
            return
        for param in params:
            if param not in self.win32_calls:
                continue
            func, *args = self.win32_calls[param]
            func(*args)
'''))
case("u7-path-search", (U, '''        for a in os.getenv("PATH").split(os.pathsep):
            a = os.path.normpath(a)
            if os.path.isfile(os.path.join(a, pythonfile)):
                pythonfile = os.path.join(a, pythonfile)
                logging.debug("Python Script was found on the path: %s" % pythonfile)
                break
''', '''        for a in os.getenv("PATH").split(os.pathsep):
            candidate = os.path.join(os.path.normpath(a), pythonfile)
            if os.path.isfile(candidate):
                pythonfile = candidate
                logging.debug("Python Script was found on the path: %s" % pythonfile)
                break
'''))
case("u7-host-any", (U, '''    if "32" in processor_info:
        bit = "32"
    elif "64" in processor_info:
        bit = "64"
''', '''    for width in ("32", "64"):
        if width in processor_info:
            bit = width
            break
'''))
