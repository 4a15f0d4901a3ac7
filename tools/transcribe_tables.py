"""One-off transcription aid used while writing spec/Tables.tla (never run by a check: the committed
Tables.tla is part of the specification and does not follow the code)."""
import sys; sys.path.insert(0, '/repo')
from procmon_parser import consts as C
out = []
w = out.append
w("------------------------------- MODULE Tables -------------------------------")
w("(* Vocabularies of Process Monitor: names of codes, flags and columns.          *)")
w("(* Codes below 2^31 are integers; 32-bit codes are lower-case hex strings.      *)")
w("(* Flag tables are ordered sequences <<set of bit positions, name>>.            *)")
w("EXTENDS Naturals, Sequences, TLC")
w("")
def enumt(name, e, comment=""):
    items = [(m.value, m.name) for m in e]
    w("%s == %s" % (name, comment and "(* %s *)" % comment))
    w("  " + " @@\n  ".join('%d :> "%s"' % i for i in items))
    w("")
enumt("RuleActionName", C.RuleAction); enumt("RuleRelationName", C.RuleRelation); enumt("ColumnName", C.Column)
w("(* Exported column headings, in the order of the export record. *)")
w("CsvColumn == <<")
w(",\n".join('  "%s"' % v for v in C.ColumnToOriginalName.values())); w(">>"); w("")
enumt("EventClassName", C.EventClass)
enumt("ProcessOp", C.ProcessOperation); enumt("RegistryOp", C.RegistryOperation); enumt("NetworkOp", C.NetworkOperation)
enumt("ProfilingOp", C.ProfilingOperation); enumt("FileOp", C.FilesystemOperation)
enumt("QueryVolumeSub", C.FilesystemQueryVolumeInformationOperation); enumt("SetVolumeSub", C.FilesystemSetVolumeInformationOperation)
enumt("QueryFileSub", C.FilesystemQueryInformationOperation); enumt("SetFileSub", C.FilesystemSetInformationOperation)
enumt("DirectorySub", C.FilesysemDirectoryControlOperation); enumt("PnpSub", C.FilesystemPnpOperation); enumt("LockSub", C.FilesystemLockUnlockOperation)
enumt("RegTypeName", C.RegistryTypes); enumt("KeyInfoClass", C.RegistryKeyInformationClass); enumt("ValueInfoClass", C.RegistryKeyValueInformationClass)
enumt("FileInfoClass", C.FileInformationClass); enumt("FileDisposition", C.FilesystemDisposition); enumt("FileOpenResult", C.FilesystemOpenResult)
w("SetInfoClass == " + " @@ ".join('%d :> "%s"' % i for i in C.RegistryKeySetInformationClass.items())); w("")
w("(* Result codes, keyed by lower-case hex. *)")
w("ResultName ==\n  " + " @@\n  ".join('"%x" :> "%s"' % i for i in C._ErrorCodeMessages.items())); w("")
w("(* Device and file system control codes. *)")
w("ControlName ==\n  " + " @@\n  ".join('"%x" :> "%s"' % i for i in C._IoctlConsts.items())); w("")
bits = lambda v: "{" + ", ".join(str(i) for i in range(32) if v >> i & 1) + "}"
def maskt(name, t):
    w("%s == <<\n  " % name + ",\n  ".join('<<%s, "%s">>' % (bits(v), s) for v, s in t.items()) + ">>"); w("")
maskt("RegistryAccess", C.REGISTRY_ACCESS_MASK_STRINGS); maskt("FileAccess", C.FILESYSTEM_ACCESS_MASK_STRINGS)
w("(* What GENERIC_READ, _WRITE, _EXECUTE, _ALL (bits 31, 30, 29, 28) grant. *)")
w("RegistryGeneric == <<%s>>" % ", ".join(map(bits, C.REGISTRY_ACCESS_MASK_MAPPING)))
w("FileGeneric == <<%s>>" % ", ".join(map(bits, C.FILESYSTEM_ACCESS_MASK_MAPPING))); w("")
maskt("CreateOptions", C.FILESYSTEM_CREATE_OPTIONS); maskt("FileAttributes", C.FilesystemCreateAttributes); maskt("ShareModes", C.FilesystemCreateShareMode)
maskt("IoFlags", C.FilesystemIoFlags); maskt("NotifyFlags", C.FilesystemNotifyChangeFlags)
w("IoPriority == " + " @@ ".join('%d :> "%s"' % i for i in C.FilesystemPriority.items() if i[0])); w("")
w("SyncType == " + " @@ ".join('%d :> "%s"' % i for i in C.FileSystemCreateFileMappingSyncType.items())); w("")
w("(* First match wins; bit 9 adds the NOCACHE suffix. *)")
w("PageProtections == <<%s>>" % ", ".join('<<%d, "%s">>' % (m.value.bit_length()-1, m.name) for m in C.PageProtection if m.name != "PAGE_NOCACHE")); w("")
w("============================================================================="); 
open('/verif/spec/Tables.tla','w').write("\n".join(out)+"\n")
