"""Writes spec/tables.json from the current tree (run by hand after the values were checked against the specifications)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sa"))
import constev  # noqa: E402
import project  # noqa: E402
import rules_tables as rt  # noqa: E402

p = project.load()
A, W, V = "uefi.authenticated_variables_structure_support", "uefi.wincert", "uefi.edk2.variable_format"


def glob(mod, prefix="", skip=()):
    return [f"{mod}:{k}" for k in p.by_short[mod].globals if k.startswith(prefix) and k not in skip and not k.endswith("_Pack")]


def cls(mod, c, *names):
    k = p.cls(mod + ":" + c)
    return [f"{mod}:{c}.{n}" for n in (names or k.attrs)]


GROUPS = [
    ("UEFI specification, Appendix D (status codes)", cls("uefi.status_codes", "UefiStatusCode")),
    ("TPM 2.0 library specification, part 2 (structures)", glob("tpm.tpm2_defs", "TPM_")),
    ("TPM reference simulator, TpmTcpProtocol.h", ["tpm.tpm2_simulator:PLAT_COMMANDS"]),
    ("UEFI specification, GetVariable() attributes", glob("uefi.uefi_multi_phase", "EFI_VARIABLE_") + cls("uefi.uefi_multi_phase", "EfiVariableAttributes", "SHORT_STRING_MAP", "INVERSE_SHORT_STRING_MAP", "STRING_MAP", "INVERSE_STRING_MAP")),
    ("UEFI specification, device path protocol", glob("uefi.device_path", skip=("DEVICE_PATH_TYPES", "DEVICE_PATH_SUBTYPES")) + ["uefi.device_path:DEVICE_PATH_TYPES", "uefi.device_path:DEVICE_PATH_SUBTYPES"]),
    ("UEFI specification, signature lists and certificates", [A + ":EfiGlobalVarNamespaceUuid", A + ":Sha256Oid", A + ":EfiSignatureDataEfiCertX509.STATIC_STRUCT_SIZE", A + ":EfiSignatureDataEfiCertX509.FIXED_SIZE", A + ":EfiSignatureDataEfiCertSha256.FIXED_SIZE", A + ":EfiSignatureList.STATIC_STRUCT_SIZE"]
     + cls(A, "EfiSignatureDataFactory", "EFI_CERT_SHA256_GUID", "EFI_CERT_X509_GUID", "EFI_CERT_X509_SHA256_GUID")),
    ("PE/COFF and UEFI WIN_CERTIFICATE", cls(W, "WinCertPkcs1", "STATIC_STRUCT_SIZE", "EFI_HASH_SHA256") + cls(W, "WinCertUefiGuid", "STATIC_STRUCT_SIZE", "_EFI_CERT_TYPE_PKCS7_GUID", "PKCS7Guid")
     + cls(W, "WinCert")),
    ("UEFI specification, capsules", cls("uefi.fmp_capsule_header", "FmpCapsuleImageHeaderClass", "EFI_FIRMWARE_MANAGEMENT_CAPSULE_IMAGE_HEADER_INIT_VERSION") + cls("uefi.fmp_capsule_header", "FmpCapsuleHeaderClass", "EFI_FIRMWARE_MANAGEMENT_CAPSULE_HEADER_INIT_VERSION")
     + cls("uefi.uefi_capsule_header", "UefiCapsuleHeaderClass", "EFI_FIRMWARE_MANAGEMENT_CAPSULE_ID_GUID", "_CAPSULE_FLAGS_PERSIST_ACROSS_RESET", "_CAPSULE_FLAGS_POPULATE_SYSTEM_TABLE", "_CAPSULE_FLAGS_INITIATE_RESET")
     + cls("uefi.edk2.fmp_payload_header", "FmpPayloadHeaderClass", "_FMP_PAYLOAD_HEADER_SIGNATURE")),
    ("PI specification and EDK2 variable store headers", glob("uefi.pi_firmware_volume") + glob("uefi.edk2.ftw_working_block_format") + glob(V)),
    ("EDK2 variable policy", cls("uefi.edk2.variable_policy", "VariablePolicyEntry", *[n for n in p.cls("uefi.edk2.variable_policy:VariablePolicyEntry").attrs if not n.startswith("_")])),
    ("AMD IOMMU specification (IVRS)", cls("acpi.ivrs_parser", "IVRS_TABLE.IVHD_TYPE") if p.cls("acpi.ivrs_parser:IVRS_TABLE.IVHD_TYPE") else []),
    ("Windows firmware policy blob", [k for c in ("PolicyValueType", "FirmwarePolicy") for k in cls("windows.policy.firmware_policy", c) if "Format" not in k.split(".")[-1] and "Size" not in k.split(".")[-1]]),
    ("Microsoft Inf2Cat /os values and driver architectures", ["windows.capsule.cat_generator:CatGenerator.SUPPORTED_OS", "windows.capsule.inf_generator:InfGenerator.SUPPORTED_ARCH", "windows.capsule.inf_generator2:SUPPORTED_ARCH", "windows.locate_tools:supported_vs_versions"]),
    ("ECMA-48 colour sequences", cls("log.ansi_handler", "AnsiColor")),
    ("Windows console attributes", cls("log.ansi_handler", "WinColor") + cls("log.ansi_handler", "Win32Console", "STDOUT", "STDERR")),
]
UNORD = [
    ("EDK2 DSC specification (PCD, module and codebase types)", ["uefi.edk2.build_objects.dsc:dsc_pcd_types", "uefi.edk2.build_objects.dsc:pcd_variable_attributes", "uefi.edk2.build_objects.dsc:dsc_section_type.dsc_module_types", "uefi.edk2.parsers.inf_parser:AllPhases"]),
]

out = {"groups": []}
for un, gs in ((False, GROUPS), (True, UNORD)):
    for src, keys in gs:
        e = {}
        for k in keys:
            v, w = rt.value(p, k)
            if v is constev.FAIL or rt.enc(v) == {"?": 1}:
                print("not constant:", k)
                continue
            e[k] = rt.enc(v)
        out["groups"].append({"source": src, "entries": e, **({"unordered": True} if un else {})})
U = "uefi.uefi_multi_phase:EfiVariableAttributes."
out["inverse"] = [[U + "STRING_MAP", U + "INVERSE_STRING_MAP"], [U + "SHORT_STRING_MAP", U + "INVERSE_SHORT_STRING_MAP"],
                  ["tpm.tpm2_defs:CommandCode.get_code()", "tpm.tpm2_defs:CommandCode.get_string()"]]
out["injective"] = [U + "STRING_MAP", U + "SHORT_STRING_MAP", "uefi.edk2.variable_policy:VariablePolicyEntry.LOCK_POLICY_STRING_MAP", "uefi.device_path:DEVICE_PATH_TYPES",
                    "tpm.tpm2_simulator:PLAT_COMMANDS", "tpm.tpm2_defs:CommandCode.get_code()", "tpm.tpm2_defs:CommandCode.get_string()"]
fam = lambda mod, prefix, c="", skip=(), bits=False: {"mod": mod, "prefix": prefix, "cls": c, "skip": list(skip), "bits": bits}  # noqa: E731
T = "tpm.tpm2_defs"
out["families"] = [fam(T, "TPM_ALG_", skip=["TPM_ALG_Size", "TPM_ALG_FIRST", "TPM_ALG_LAST", "TPM_ALG_SHA"]), fam(T, "TPM_CC_", skip=["TPM_CC_Size", "TPM_CC_FIRST", "TPM_CC_LAST", "TPM_CC_PP_FIRST", "TPM_CC_PP_LAST"]),
                   fam(T, "TPM_ST_", skip=["TPM_ST_Size"]), fam(T, "TPM_RH_", skip=["TPM_RH_Size", "TPM_RH_FIRST", "TPM_RH_LAST"]), fam(T, "TPM_SE_", skip=["TPM_SE_Size"]), fam(T, "TPM_SU_", skip=["TPM_SU_Size"]),
                   fam("uefi.device_path", "MSG_"), fam("uefi.device_path", "HW_"), fam("uefi.device_path", "MEDIA_", skip=["MEDIA_DEVICE_PATH"]),
                   fam("uefi.uefi_multi_phase", "EFI_VARIABLE_", bits=True), fam("uefi.uefi_capsule_header", "_CAPSULE_FLAGS_", "UefiCapsuleHeaderClass", bits=True),
                   fam(W, "WIN_CERT_TYPE_", "WinCert"), fam("windows.policy.firmware_policy", "POLICY_VALUE_TYPE_", "PolicyValueType"), fam("uefi.edk2.variable_policy", "TYPE_", "VariablePolicyEntry"),
                   fam("log.ansi_handler", "", "AnsiColor")]
for c in p.iter_classes(p.by_short["acpi.ivrs_parser"]):
    if c.is_enum:
        q = c.qual.split(":")[1]
        out["families"].append(fam("acpi.ivrs_parser", "", q))
        for g in out["groups"]:
            if "IVRS" in g["source"]:
                for k in cls("acpi.ivrs_parser", q):
                    g["entries"][k] = rt.enc(rt.value(p, k)[0])
out["names"] = [[T, T + ":CommandCode.get_code()", "TPM_CC_"]]
with open(rt.SPEC, "w", encoding="utf-8") as f:
    json.dump(out, f, indent=0)
print(sum(len(g["entries"]) for g in out["groups"]), "constants")
