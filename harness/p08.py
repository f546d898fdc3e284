"""P08 status, command and response codes: every number maps to the name the specifications give it."""

import edk2toollib.tpm.tpm2_defs as t2d
from edk2toollib.uefi.status_codes import UefiStatusCode
from sx.case import Case, Suite

suite = Suite()
COVER = ["error", "warning", "undefined", "hex", "command", "rc"]

# UEFI specification, appendix D
ERR = {
    1: "Load Error", 2: "Invalid Parameter", 3: "Unsupported", 4: "Bad BufferSize", 5: "Buffer Too Small", 6: "Not Ready", 7: "Device Error",
    8: "Write Protected", 9: "Out of Resources", 10: "Volume Corrupt", 11: "Volume Full", 12: "No Media", 13: "Media Changed", 14: "Not Found",
    15: "Access Denied", 16: "No Response", 17: "No Mapping", 18: "Time Out", 19: "Not Started", 20: "Already Started", 21: "Aborted",
    22: "ICMP Error", 23: "TFTP Error", 24: "Protocol Error", 25: "Incompatible Error", 26: "Security Violation", 27: "CRC Error",
    28: "End of Media", 31: "End of File", 32: "Invalid Language", 33: "Compromised Data", 34: "IP Address Conflict", 35: "HTTP Error",
}
OK = {0: "Success", 1: "Unknown Glyph", 2: "Delete Failure", 3: "Write Failure", 4: "Buffer Too Small", 5: "Stale Data", 6: "File System", 7: "Reset Required"}


def status(sx, bits):
    v = sx.u64("v") if bits == 64 else sx.u32("v")
    c = UefiStatusCode()
    s = (c.Convert64BitToString if bits == 64 else c.Convert32BitToString)(v)
    high = v >= (1 << (bits - 1))
    low = v & ((1 << (bits - 1)) - 1)
    for k, name in ERR.items():
        sx.check(sx.implies(sx.and_(high, low == k), sx.eq(s, name)), "error codes have their specified names")
    for k, name in OK.items():
        sx.check(sx.implies(sx.and_(sx.not_(high), low == k), sx.eq(s, name)), "success and warning codes have their specified names")
    sx.check(sx.implies(sx.and_(high, low > 35), sx.eq(s, "Undefined StatusCode")), "an unassigned error code is undefined")
    sx.check(sx.implies(sx.and_(sx.not_(high), low > 7), sx.eq(s, "Undefined StatusCode")), "an unassigned warning code is undefined")
    if s == "Undefined StatusCode":
        sx.cover("undefined")
    elif high:
        sx.cover("error")
    else:
        sx.cover("warning")


def hexstatus(sx, bits, up):
    """hex text converts like the number it spells"""
    v = sx.u64("v") if bits == 64 else sx.u32("v")
    t = sx.scat("0x", sx.hexs(v, bits // 4, up))
    c = UefiStatusCode()
    if bits == 64:
        sx.check(sx.eq(c.ConvertHexString64ToString(t), c.Convert64BitToString(v)), "hex text converts like its number")
    else:
        sx.check(sx.eq(c.ConvertHexString32ToString(t), c.Convert32BitToString(v)), "hex text converts like its number")
    sx.cover("hex")


# TCG TPM 2.0 part 2, TPM_CC constants
CC = {
    0x11F: "NV_UndefineSpaceSpecial", 0x120: "EvictControl", 0x121: "HierarchyControl", 0x122: "NV_UndefineSpace", 0x124: "ChangeEPS", 0x125: "ChangePPS",
    0x126: "Clear", 0x127: "ClearControl", 0x128: "ClockSet", 0x129: "HierarchyChangeAuth", 0x12A: "NV_DefineSpace", 0x12B: "PCR_Allocate",
    0x12C: "PCR_SetAuthPolicy", 0x12D: "PP_Commands", 0x12E: "SetPrimaryPolicy", 0x12F: "FieldUpgradeStart", 0x130: "ClockRateAdjust",
    0x131: "CreatePrimary", 0x132: "NV_GlobalWriteLock", 0x133: "GetCommandAuditDigest", 0x134: "NV_Increment", 0x135: "NV_SetBits", 0x136: "NV_Extend",
    0x137: "NV_Write", 0x138: "NV_WriteLock", 0x139: "DictionaryAttackLockReset", 0x13A: "DictionaryAttackParameters", 0x13B: "NV_ChangeAuth",
    0x13C: "PCR_Event", 0x13D: "PCR_Reset", 0x13E: "SequenceComplete", 0x13F: "SetAlgorithmSet", 0x140: "SetCommandCodeAuditStatus",
    0x141: "FieldUpgradeData", 0x142: "IncrementalSelfTest", 0x143: "SelfTest", 0x144: "Startup", 0x145: "Shutdown", 0x146: "StirRandom",
    0x147: "ActivateCredential", 0x148: "Certify", 0x149: "PolicyNV", 0x14A: "CertifyCreation", 0x14B: "Duplicate", 0x14C: "GetTime",
    0x14D: "GetSessionAuditDigest", 0x14E: "NV_Read", 0x14F: "NV_ReadLock", 0x150: "ObjectChangeAuth", 0x151: "PolicySecret", 0x152: "Rewrap",
    0x153: "Create", 0x154: "ECDH_ZGen", 0x155: "HMAC", 0x156: "Import", 0x157: "Load", 0x158: "Quote", 0x159: "RSA_Decrypt", 0x15B: "HMAC_Start",
    0x15C: "SequenceUpdate", 0x15D: "Sign", 0x15E: "Unseal", 0x160: "PolicySigned", 0x161: "ContextLoad", 0x162: "ContextSave", 0x163: "ECDH_KeyGen",
    0x164: "EncryptDecrypt", 0x165: "FlushContext", 0x167: "LoadExternal", 0x168: "MakeCredential", 0x169: "NV_ReadPublic", 0x16A: "PolicyAuthorize",
    0x16B: "PolicyAuthValue", 0x16C: "PolicyCommandCode", 0x16D: "PolicyCounterTimer", 0x16E: "PolicyCpHash", 0x16F: "PolicyLocality",
    0x170: "PolicyNameHash", 0x171: "PolicyOR", 0x172: "PolicyTicket", 0x173: "ReadPublic", 0x174: "RSA_Encrypt", 0x176: "StartAuthSession",
    0x177: "VerifySignature", 0x178: "ECC_Parameters", 0x179: "FirmwareRead", 0x17A: "GetCapability", 0x17B: "GetRandom", 0x17C: "GetTestResult",
    0x17D: "Hash", 0x17E: "PCR_Read", 0x17F: "PolicyPCR", 0x180: "PolicyRestart", 0x181: "ReadClock", 0x182: "PCR_Extend", 0x183: "PCR_SetAuthValue",
    0x184: "NV_Certify", 0x185: "EventSequenceComplete", 0x186: "HashSequenceStart", 0x187: "PolicyPhysicalPresence", 0x188: "PolicyDuplicationSelect",
    0x189: "PolicyGetDigest", 0x18A: "TestParms", 0x18B: "Commit", 0x18C: "PolicyPassword", 0x18D: "ZGen_2Phase", 0x18E: "EC_Ephemeral",
}


def command(sx):
    v = sx.u32("v")
    s = t2d.CommandCode.get_string(v)
    if s is None:
        sx.check(sx.and_(*[v != k for k in CC]), "every assigned command code has a name")
        return
    sx.cover("command")
    sx.check(sx.or_(*[sx.and_(v == k, sx.eq(s, "TPM_CC_" + n)) for k, n in CC.items()]), "a command code has its specified name")
    sx.check(t2d.CommandCode.get_code(s) == v, "looking the name up gives the code back")


def command_names(sx):
    i = sx.choice("i", len(CC))
    k, n = sorted(CC.items())[i]
    sx.check(t2d.CommandCode.get_code("TPM_CC_" + n) == k, "a command name has its specified code")
    sx.check(getattr(t2d, "TPM_CC_" + n) == k, "the constant has the specified code")


def no_command(sx, n):
    t = sx.text("t", n, alphabet="TPM_CClear")
    c = t2d.CommandCode.get_code(t)
    sx.check(sx.or_(c is None, sx.eq(t, "TPM_CC_Clear")), "an unknown name has no code")


# TCG TPM 2.0 part 2, TPM_RC constants
RC_VER1 = {
    0x00: "INITIALIZE", 0x01: "FAILURE", 0x03: "SEQUENCE", 0x0B: "PRIVATE", 0x19: "HMAC", 0x20: "DISABLED", 0x21: "EXCLUSIVE", 0x24: "AUTH_TYPE",
    0x25: "AUTH_MISSING", 0x26: "POLICY", 0x27: "PCR", 0x28: "PCR_CHANGED", 0x2D: "UPGRADE", 0x2E: "TOO_MANY_CONTEXTS", 0x2F: "AUTH_UNAVAILABLE",
    0x30: "REBOOT", 0x31: "UNBALANCED", 0x42: "COMMAND_SIZE", 0x43: "COMMAND_CODE", 0x44: "AUTHSIZE", 0x45: "AUTH_CONTEXT", 0x46: "NV_RANGE",
    0x47: "NV_SIZE", 0x48: "NV_LOCKED", 0x49: "NV_AUTHORIZATION", 0x4A: "NV_UNINITIALIZED", 0x4B: "NV_SPACE", 0x4C: "NV_DEFINED", 0x50: "BAD_CONTEXT",
    0x51: "CPHASH", 0x52: "PARENT", 0x53: "NEEDS_TEST", 0x54: "NO_RESULT", 0x55: "SENSITIVE",
}
RC_FMT1 = {
    0x01: "ASYMMETRIC", 0x02: "ATTRIBUTES", 0x03: "HASH", 0x04: "VALUE", 0x05: "HIERARCHY", 0x07: "KEY_SIZE", 0x08: "MGF", 0x09: "MODE", 0x0A: "TYPE",
    0x0B: "HANDLE", 0x0C: "KDF", 0x0D: "RANGE", 0x0E: "AUTH_FAIL", 0x0F: "NONCE", 0x10: "PP", 0x12: "SCHEME", 0x15: "SIZE", 0x16: "SYMMETRIC",
    0x17: "TAG", 0x18: "SELECTOR", 0x1A: "INSUFFICIENT", 0x1B: "SIGNATURE", 0x1C: "KEY", 0x1D: "POLICY_FAIL", 0x1F: "INTEGRITY", 0x20: "TICKET",
    0x21: "RESERVED_BITS", 0x22: "BAD_AUTH", 0x23: "EXPIRED", 0x24: "POLICY_CC", 0x25: "BINDING", 0x26: "CURVE", 0x27: "ECC_POINT",
}
RC_WARN = {
    0x01: "CONTEXT_GAP", 0x02: "OBJECT_MEMORY", 0x03: "SESSION_MEMORY", 0x04: "MEMORY", 0x05: "SESSION_HANDLES", 0x06: "OBJECT_HANDLES", 0x07: "LOCALITY",
    0x08: "YIELDED", 0x09: "CANCELED", 0x0A: "TESTING", 0x20: "NV_RATE", 0x21: "LOCKOUT", 0x22: "RETRY", 0x23: "NV_UNAVAILABLE",
}
RC_WARN.update({0x10 + i: "REFERENCE_H%d" % i for i in range(7)})
RC_WARN.update({0x18 + i: "REFERENCE_S%d" % i for i in range(7)})


def simple(sx):
    v = sx.u32("v")
    s = t2d.ResponseCode.get_simple_string(v)
    named = [sx.and_(v == 0x100 + k, s is not None and sx.eq(s, "TPM_RC_" + n)) for k, n in RC_VER1.items()]
    sx.check(sx.or_(sx.and_(s is None, *[v != 0x100 + k for k in RC_VER1]), *named), "a format zero code has its specified name and no other code has one")
    sx.cover("rc")


def rc(sx):
    """bit layout of a response code (TPM 2.0 part 1, 39.4) and names (part 2, 6.6)"""
    v = sx.int("v", 0, 0xFFF)
    r = sx.attempt(t2d.ResponseCode.parse_code, v)
    named = lambda table, code, got: sx.or_(*[sx.and_(code == k, sx.eq(got, "TPM_RC_" + n)) for k, n in table.items()])
    known = lambda table, code: sx.or_(*[code == k for k in table])
    par, ses, n = (v & 0x40) != 0, (v & 0x800) != 0, v & 0x7F
    sx.cover("rc")
    if v == 0:
        sx.check(r.ok and r.value[0] == "Success" and r.value[3] == "TPM_RC_SUCCESS", "zero is success")
    elif (v & 0x180) == 0:
        sx.check(r.ok and r.value[0] == "Tpm1.2 Response", "no version bits is a TPM 1.2 code")
    elif (v & 0x80) != 0:
        code = v & 0x3F
        if par or ses:
            num = (v >> 8) & 0xF if par else (v >> 8) & 7
            sx.check(r.ok, "parameter and session errors parse")
            sx.check(sx.and_(sx.eq(r.value[0], "Error"), sx.eq(r.value[1], "Parameter" if par else "Session")), "bits 6 and 11 tell what the error is about")
            sx.check(sx.and_(r.value[2] == num, r.value[3] == code), "parameter and session errors carry number and error")
        else:
            sx.check(sx.implies(known(RC_FMT1, code), r.ok), "a named handle error parses")
            if r.ok:
                sx.check(sx.and_(sx.eq(r.value[0], "Error"), sx.eq(r.value[1], "Handle"), r.value[2] == ((v >> 8) & 7), r.value[3] == code), "handle errors carry number and error")
                sx.check(named(RC_FMT1, code, r.value[4]), "a handle error has its specified name")
    elif (v & 0x400) != 0:
        sx.check(r.ok and r.value[0] == "Vendor Defined Code", "the vendor bit is honoured")
    elif ses:
        sx.check(sx.implies(known(RC_WARN, n), r.ok), "a named warning parses")
        if r.ok:
            sx.check(sx.and_(sx.eq(r.value[0], "Warning"), named(RC_WARN, n, r.value[3])), "a warning has its specified name")
    else:
        sx.check(sx.implies(known(RC_VER1, n), r.ok), "a named format zero error parses")
        if r.ok:
            sx.check(sx.and_(sx.eq(r.value[0], "Error"), r.value[3] == n, named(RC_VER1, n, r.value[4])), "a format zero error has its specified name")


suite.add(Case("status-32", status, "every 32-bit status", bits=32))
suite.add(Case("status-64", status, "every 64-bit status", bits=64))
for b in (32, 64):
    for u in (False, True):
        suite.add(Case("hex-%d-%s" % (b, u), hexstatus, "every %d-bit status as %d hex digits" % (b, b // 4), bits=b, up=u))
suite.add(Case("command", command, "every 32-bit code"))
suite.add(Case("command-names", command_names, "every assigned command"))
suite.add(Case("no-command-12", no_command, "every 12-character word over the letters of TPM_CC_Clear", n=12))
suite.add(Case("simple", simple, "every 32-bit code"))
suite.add(Case("rc", rc, "every 12-bit response code"))
