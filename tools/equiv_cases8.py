"""Equivalence cases, eighth part: text that has gone through a method already is not put through it again."""
from equiv_cases import case

BR = "uefi/edk2/parsers/buildreport_parser.py"
DEC = "uefi/edk2/parsers/dec_parser.py"
D = "uefi/edk2/parsers/dsc_parser.py"
INF = "uefi/edk2/parsers/inf_parser.py"
G = "uefi/edk2/parsers/guid_parser.py"
F = "uefi/edk2/parsers/fdf_parser.py"
GI = "gitignore_parser.py"

case("s8-lib-class", (BR, 'if lib_class.strip().lower() == "null":', 'if lib_class.lower() == "null":'))
case("s8-temp-line", (BR, "templine = line.strip()\n", "templine = line\n"))
case("s8-driver-type", (BR, '''                                value = value.strip()
                                self.Type''', '''                                self.Type'''))
case("s8-contents", (BR, "            line = self._ReportContents[n].strip()\n", "            line = self._ReportContents[n]\n"))
case("s8-contents2", (BR, "line = self._ReportContents[lineNumber].strip()\n", "line = self._ReportContents[lineNumber]\n"))
case("s8-brace", (DEC, 'if sline.rstrip()[-1] == "{":', 'if sline[-1] == "{":'))
case("s8-brace-ends", (DEC, 'if sline.rstrip()[-1] == "{":', 'if sline.endswith("{"):'))
case("s8-dsc-section", (D, 'elif self.CurrentSection.upper().startswith("PCDS"):', 'elif self.CurrentSection.startswith("PCDS"):'))
case("s8-dsc-libsection", (D, 'elif self.CurrentSection.upper() == "LIBRARYCLASSES":', 'elif self.CurrentSection == "LIBRARYCLASSES":'))
case("s8-inf-split", (INF, "src = line.split()[0].strip().rstrip", "src = line.split()[0].rstrip"))
case("s8-inf-phases", (INF, 'self.SupportedPhases = tokens[1].partition("|")[2].strip().split()', 'self.SupportedPhases = tokens[1].partition("|")[2].split()'))
case("s8-dsc-file", (D, "            return line.strip().split()[0]\n", "            return line.split()[0]\n"))
case("s8-guid-strip", (G, '''        guidstring = guidstring.strip()
''', '''        guidstring = guidstring.strip().strip()
'''))
case("s8-fdf-file", (F, 'sline = sline.strip("}").strip("{").strip()', 'sline = sline.strip("}").strip("{").strip().strip()'))
case("s8-fdf-upper", (F, 'sline.upper().startswith("SECTION") and sline.upper().count("=") > 0', 'sline.upper().startswith("SECTION") and "=" in sline'))
case("s8-append-brace", (DEC, "self.IncludePaths.append(sline.strip())", "self.IncludePaths.append(sline.strip().rstrip())"))
