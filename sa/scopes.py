"""Which contract facts decide which property: functions by module and name, fact kinds, and a filter on the fact key."""
import re

ACPI = ("acpi.ivrs_parser", "acpi.dmar_parser")
FW = ("uefi.fmp_capsule_header", "uefi.fmp_auth_header", "uefi.uefi_capsule_header", "uefi.edk2.fmp_payload_header", "uefi.edk2.variable_format",
      "uefi.edk2.variable_policy", "uefi.edk2.ftw_working_block_format", "uefi.pi_firmware_volume", "uefi.pi_firmware_file", "uefi.bmp_object",
      "uefi.device_path", "uefi.edk2.variablestore_manulipulations")
SEC = ("uefi.authenticated_variables_structure_support", "uefi.wincert", "windows.policy.firmware_policy", "tpm.tpm2_stream", "tpm.tpm2_simulator")
BIN = ACPI + FW + SEC
PARSERS = tuple("uefi.edk2.parsers." + x for x in ("base_parser", "dsc_parser", "fdf_parser", "inf_parser", "dec_parser", "targettxt_parser",
                                                   "override_parser", "buildreport_parser", "guid_parser"))
DB = ("database.edk2_db", "database.tables.environment_table", "database.tables.inf_table", "database.tables.instanced_fv_table",
      "database.tables.instanced_inf_table", "database.tables.package_table", "database.tables.source_table")
LOG = ("log.ansi_handler", "log.file_handler", "log.string_handler")
CAPS = ("windows.capsule.inf_generator", "windows.capsule.inf_generator2", "windows.capsule.cat_generator")
DATA = {"ret", "set", "in", "out", "fx"}
ALL = DATA | {"reject"}
DUNDER = re.compile(r"__(eq|ne|hash|lt|le|gt|ge)__$")

SIZEATTR = re.compile(r"size|length|len$|count|checksum|offset|number|total|entries$", re.I)


def flat(f):
    return re.compile(f)


class Scope:
    def __init__(self, mods, kinds, names=None, skip=None, key=None):
        self.mods, self.kinds = mods, set(kinds)
        self.names = re.compile(names, re.I) if names else None
        self.skip = re.compile(skip, re.I) if skip else None
        self.key = key

    def has(self, q):
        mod, _, path = q.partition(":")
        if mod not in self.mods:
            return False
        nm = path
        if self.names and not self.names.search(nm):
            return False
        return not (self.skip and self.skip.search(nm))


def stackkey(key):
    return key == "reject" or bool(re.search(r"_target_file_stack|_OpenFiles", key))


def sizekey(key):
    kind, _, path = key.partition(":")
    if kind in ("set",):
        return bool(SIZEATTR.search(path.split(".")[-1]))
    return True


NOPRINT = r"\.(print\w*|dump_?info|dump|__str__|__repr__|Print\w*)$|XmlElement|__eq__|__hash__|__lt__|__ne__"
SCOPES = {
    "B01": [Scope(ACPI, DATA, skip=NOPRINT), Scope(ACPI, {"ret", "fx", "out"}, names=r"XmlElement")],
    "B02": [Scope(FW, DATA, skip=NOPRINT)],
    "B03": [Scope(SEC, DATA, skip=NOPRINT)],
    "B05": [Scope(BIN, {"set", "in", "ret", "out"}, skip=NOPRINT + r"|get|decode|__init__|from_|load_|populate|factory", key=sizekey)],
    "B06": [Scope(BIN, {"reject"}, skip=NOPRINT), Scope(BIN, {"ret"}, names=r"valid|verify|factory|decode|populate|load|from_|check")],
    "B07": [Scope(("uefi.edk2.parsers.dsc_parser", "uefi.edk2.parsers.fdf_parser"), {"reject", "in", "set"},
                  names=r"ParseFile|__Parse(Define)?Line|__Process|PushTarget|PopTarget|InsertLines|GetNextLine", key=stackkey)],
    "S01": [Scope(("uefi.authenticated_variables_structure_support",), ALL,
                  names=r"EfiVariableAuthentication2|EfiTime|update_payload|finalize|sign", skip=NOPRINT),
            Scope(("tpm.tpm2_policy_calc", "tpm.tpm2_simulator", "tpm.tpm2_stream"), ALL),
            Scope(("uefi.fmp_auth_header",), ALL, names="IsSigned|is_signed"),
            Scope(("uefi.wincert",), DATA, skip=NOPRINT, names="encode|write|Write|Encode|add_cert_data|AddCertData")],
    "P01": [Scope(PARSERS, ALL, names=r"Conditional|InActive|ParseFile|ProcessDefines|ProcessMore|ParseLines|_Parse\b|__Parse|GetNextLine|SetInput|ParseDefine|SectionHeader")],
    "P02": [Scope(("uefi.edk2.parsers.base_parser",), ALL, names=r"Conditional|InActive|ComputeResult|Operator|PostFix|Tokenize|_IsOperand|_IsOperator|ResetParserState|_Find|ReplaceVariables|ConvertTo|IntFrom|IsIn|__init__")],
    "P03": [Scope(PARSERS, DATA)],
    "P04": [Scope(PARSERS + ("gitignore_parser", "uefi.edk2.path_utilities"), {"reject", "ret", "fx"})],
    "D01": [Scope(DB, {"fx", "reject"}), Scope(DB, {"set", "ret"}, names=r"edk2_db|Edk2DB|parse$|session|__enter__|__exit__|_run|register")],
    "D02": [Scope(DB, ALL)],
    "U01": [Scope(("utility_functions",), ALL, names=r"Cmd|reader|Thread|RunPython|Run|timing|Version|CatalogSign|Sign"),
            Scope(("windows.locate_tools", "windows.capsule.cat_generator"), ALL),
            Scope(("database.tables.package_table",), {"fx", "reject", "ret"}), Scope(("uefi.edk2.path_utilities",), {"fx", "reject"})],
    "U03": [Scope(("log.junit_report_format",) + CAPS, DATA), Scope(("os.uefivariablesupport", "utility_functions", "windows.capsule.cat_generator"), {"fx"}),
            Scope(("uefi.edk2.parsers.base_parser",), {"ret"}, names="ComputeResult|Evaluate|ConvertTo")],
    "U04": [Scope(BIN + PARSERS + DB + CAPS + ("utility_functions", "windows.locate_tools", "tpm.tpm2_policy_calc", "uefi.uefi_multi_phase",
                                               "uefi.edk2.path_utilities", "gitignore_parser", "os.uefivariablesupport", "uefi.edk2.guid_list",
                                               "tpm.tpm2_defs", "uefi.status_codes", "uefi.edk2.build_objects.dsc"), {"reject"})],
    "G01": [Scope(BIN + ("uefi.edk2.build_objects.dsc", "uefi.edk2.path_utilities", "gitignore_parser", "uefi.edk2.guid_list", "uefi.uefi_multi_phase",
                         "tpm.tpm2_policy_calc"), {"ret", "reject"}, names=r"__(eq|ne|hash|lt|le|gt|ge|cmp)__$")],
    "G03": [Scope(("utility_functions",), ALL, names="PrintByteList$"), Scope(("uefi.edk2.parsers.base_parser",), ALL, names="SetBaseAbsPath$|SetPackagePaths$"),
            Scope(("uefi.wincert",), ALL, names=r"WinCertUefiGuid\.Write$"),
            Scope(("uefi.authenticated_variables_structure_support",), ALL, names=r"EfiVariableAuthentication2\.Encode$")],
    "G04": [Scope(CAPS, ALL)],
    "G05": [Scope(LOG, ALL)],
    "X01": [Scope(("uefi.edk2.path_utilities",), ALL), Scope(("uefi.edk2.parsers.base_parser",), ALL, names=r"FindPath|SetEdk2Path|SetPackagePaths|SetBaseAbs"),
            Scope(("uefi.edk2.parsers.dsc_parser", "uefi.edk2.parsers.fdf_parser"), {"fx", "ret"}, names=r"FindPath|Include")],
}


SCOPES["T01"] = [Scope(("uefi.status_codes", "tpm.tpm2_defs", "uefi.uefi_multi_phase"), ALL - {"reject"}), Scope(("uefi.uefi_multi_phase",), {"reject"}),
                 Scope(("windows.capsule.cat_generator",), {"ret", "set"}, names="Arch|OperatingSystem"),
                 Scope(("uefi.device_path",), ALL, names="_find_subtype|Factory|get_type|get_subtype|__dict__|^[^.]*$")]
SCOPES["X02"] = [Scope(("uefi.edk2.build_objects.dsc_translator",), ALL),
                 Scope(("uefi.edk2.build_objects.dsc",), ALL, skip=r"__(eq|ne|hash)__")]


def plan(prop, spec):
    """-> {qual: [(kinds, keyfilter)]} over the contract functions"""
    out = {}
    for sc in SCOPES.get(prop, []):
        for q in spec["funcs"]:
            if sc.has(q):
                out.setdefault(q, []).append((sc.kinds, sc.key))
    return out


def parts(prop, q):
    """the fact kinds and key filters under which the property speaks about one function, in the contract or not"""
    return [(sc.kinds, sc.key) for sc in SCOPES.get(prop, []) if sc.has(q)]
