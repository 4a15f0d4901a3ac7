------------------------------- MODULE Tables -------------------------------
(* Vocabularies of Process Monitor: names of codes, flags and columns.          *)
(* Codes below 2^31 are integers; 32-bit codes are lower-case hex strings.      *)
(* Flag tables are ordered sequences <<set of bit positions, name>>.            *)
EXTENDS Naturals, Sequences, TLC

RuleActionName == 
  0 :> "EXCLUDE" @@
  1 :> "INCLUDE"

RuleRelationName == 
  0 :> "IS" @@
  1 :> "IS_NOT" @@
  2 :> "LESS_THAN" @@
  3 :> "MORE_THAN" @@
  4 :> "BEGINS_WITH" @@
  5 :> "ENDS_WITH" @@
  6 :> "CONTAINS" @@
  7 :> "EXCLUDES"

ColumnName == 
  0 :> "NONE" @@
  40052 :> "DATE_AND_TIME" @@
  40053 :> "PROCESS_NAME" @@
  40054 :> "PID" @@
  40055 :> "OPERATION" @@
  40056 :> "RESULT" @@
  40057 :> "DETAIL" @@
  40058 :> "SEQUENCE" @@
  40064 :> "COMPANY" @@
  40065 :> "DESCRIPTION" @@
  40066 :> "COMMAND_LINE" @@
  40067 :> "USER" @@
  40068 :> "IMAGE_PATH" @@
  40069 :> "SESSION" @@
  40071 :> "PATH" @@
  40072 :> "TID" @@
  40076 :> "RELATIVE_TIME" @@
  40077 :> "DURATION" @@
  40078 :> "TIME_OF_DAY" @@
  40081 :> "VERSION" @@
  40082 :> "EVENT_CLASS" @@
  40083 :> "AUTHENTICATION_ID" @@
  40084 :> "VIRTUALIZED" @@
  40085 :> "INTEGRITY" @@
  40086 :> "CATEGORY" @@
  40087 :> "PARENT_PID" @@
  40088 :> "ARCHITECTURE" @@
  40164 :> "COMPLETION_TIME"

(* Exported column headings, in the order of the export record. *)
CsvColumn == <<
  "Date & Time",
  "Process Name",
  "PID",
  "Operation",
  "Result",
  "Detail",
  "Sequence",
  "Company",
  "Description",
  "Command Line",
  "User",
  "Image Path",
  "Session",
  "Path",
  "TID",
  "Relative Time",
  "Duration",
  "Time of Day",
  "Version",
  "Event Class",
  "Authentication ID",
  "Virtualized",
  "Integrity",
  "Category",
  "Parent PID",
  "Architecture",
  "Completion Time"
>>

EventClassName == 
  0 :> "Unknown" @@
  1 :> "Process" @@
  2 :> "Registry" @@
  3 :> "File_System" @@
  4 :> "Profiling" @@
  5 :> "Network"

ProcessOp == 
  0 :> "Process_Defined" @@
  1 :> "Process_Create" @@
  2 :> "Process_Exit" @@
  3 :> "Thread_Create" @@
  4 :> "Thread_Exit" @@
  5 :> "Load_Image" @@
  6 :> "Thread_Profile" @@
  7 :> "Process_Start" @@
  8 :> "Process_Statistics" @@
  9 :> "System_Statistics"

RegistryOp == 
  0 :> "RegOpenKey" @@
  1 :> "RegCreateKey" @@
  2 :> "RegCloseKey" @@
  3 :> "RegQueryKey" @@
  4 :> "RegSetValue" @@
  5 :> "RegQueryValue" @@
  6 :> "RegEnumValue" @@
  7 :> "RegEnumKey" @@
  8 :> "RegSetInfoKey" @@
  9 :> "RegDeleteKey" @@
  10 :> "RegDeleteValue" @@
  11 :> "RegFlushKey" @@
  12 :> "RegLoadKey" @@
  13 :> "RegUnloadKey" @@
  14 :> "RegRenameKey" @@
  15 :> "RegQueryMultipleValueKey" @@
  16 :> "RegSetKeySecurity" @@
  17 :> "RegQueryKeySecurity"

NetworkOp == 
  0 :> "Unknown" @@
  1 :> "Other" @@
  2 :> "Send" @@
  3 :> "Receive" @@
  4 :> "Accept" @@
  5 :> "Connect" @@
  6 :> "Disconnect" @@
  7 :> "Reconnect" @@
  8 :> "Retransmit" @@
  9 :> "TCPCopy"

ProfilingOp == 
  0 :> "Thread_Profiling" @@
  1 :> "Process_Profiling" @@
  2 :> "Debug_Output_Profiling"

FileOp == 
  0 :> "VolumeDismount" @@
  1 :> "VolumeMount" @@
  2 :> "FASTIO_MDL_WRITE_COMPLETE" @@
  3 :> "WriteFile2" @@
  4 :> "FASTIO_MDL_READ_COMPLETE" @@
  5 :> "ReadFile2" @@
  6 :> "QueryOpen" @@
  7 :> "FASTIO_CHECK_IF_POSSIBLE" @@
  8 :> "IRP_MJ_12" @@
  9 :> "IRP_MJ_11" @@
  10 :> "IRP_MJ_10" @@
  11 :> "IRP_MJ_9" @@
  12 :> "IRP_MJ_8" @@
  13 :> "FASTIO_NOTIFY_STREAM_FO_CREATION" @@
  14 :> "FASTIO_RELEASE_FOR_CC_FLUSH" @@
  15 :> "FASTIO_ACQUIRE_FOR_CC_FLUSH" @@
  16 :> "FASTIO_RELEASE_FOR_MOD_WRITE" @@
  17 :> "FASTIO_ACQUIRE_FOR_MOD_WRITE" @@
  18 :> "FASTIO_RELEASE_FOR_SECTION_SYNCHRONIZATION" @@
  19 :> "CreateFileMapping" @@
  20 :> "CreateFile" @@
  21 :> "CreatePipe" @@
  22 :> "IRP_MJ_CLOSE" @@
  23 :> "ReadFile" @@
  24 :> "WriteFile" @@
  25 :> "QueryInformationFile" @@
  26 :> "SetInformationFile" @@
  27 :> "QueryEAFile" @@
  28 :> "SetEAFile" @@
  29 :> "FlushBuffersFile" @@
  30 :> "QueryVolumeInformation" @@
  31 :> "SetVolumeInformation" @@
  32 :> "DirectoryControl" @@
  33 :> "FileSystemControl" @@
  34 :> "DeviceIoControl" @@
  35 :> "InternalDeviceIoControl" @@
  36 :> "Shutdown" @@
  37 :> "LockUnlockFile" @@
  38 :> "CloseFile" @@
  39 :> "CreateMailSlot" @@
  40 :> "QuerySecurityFile" @@
  41 :> "SetSecurityFile" @@
  42 :> "Power" @@
  43 :> "SystemControl" @@
  44 :> "DeviceChange" @@
  45 :> "QueryFileQuota" @@
  46 :> "SetFileQuota" @@
  47 :> "PlugAndPlay"

QueryVolumeSub == 
  1 :> "QueryInformationVolume" @@
  2 :> "QueryLabelInformationVolume" @@
  3 :> "QuerySizeInformationVolume" @@
  4 :> "QueryDeviceInformationVolume" @@
  5 :> "QueryAttributeInformationVolume" @@
  6 :> "QueryControlInformationVolume" @@
  7 :> "QueryFullSizeInformationVolume" @@
  8 :> "QueryObjectIdInformationVolume"

SetVolumeSub == 
  1 :> "SetControlInformationVolume" @@
  2 :> "SetLabelInformationVolume" @@
  8 :> "SetObjectIdInformationVolume"

QueryFileSub == 
  4 :> "QueryBasicInformationFile" @@
  5 :> "QueryStandardInformationFile" @@
  6 :> "QueryFileInternalInformationFile" @@
  7 :> "QueryEaInformationFile" @@
  9 :> "QueryNameInformationFile" @@
  14 :> "QueryPositionInformationFile" @@
  18 :> "QueryAllInformationFile" @@
  20 :> "QueryEndOfFile" @@
  22 :> "QueryStreamInformationFile" @@
  28 :> "QueryCompressionInformationFile" @@
  29 :> "QueryId" @@
  31 :> "QueryMoveClusterInformationFile" @@
  34 :> "QueryNetworkOpenInformationFile" @@
  35 :> "QueryAttributeTagFile" @@
  37 :> "QueryIdBothDirectory" @@
  39 :> "QueryValidDataLength" @@
  40 :> "QueryShortNameInformationFile" @@
  43 :> "QueryIoPiorityHint" @@
  46 :> "QueryLinks" @@
  48 :> "QueryNormalizedNameInformationFile" @@
  49 :> "QueryNetworkPhysicalNameInformationFile" @@
  50 :> "QueryIdGlobalTxDirectoryInformation" @@
  51 :> "QueryIsRemoteDeviceInformation" @@
  52 :> "QueryAttributeCacheInformation" @@
  53 :> "QueryNumaNodeInformation" @@
  54 :> "QueryStandardLinkInformation" @@
  55 :> "QueryRemoteProtocolInformation" @@
  56 :> "QueryRenameInformationBypassAccessCheck" @@
  57 :> "QueryLinkInformationBypassAccessCheck" @@
  58 :> "QueryVolumeNameInformation" @@
  59 :> "QueryIdInformation" @@
  60 :> "QueryIdExtdDirectoryInformation" @@
  62 :> "QueryHardLinkFullIdInformation" @@
  63 :> "QueryIdExtdBothDirectoryInformation" @@
  67 :> "QueryDesiredStorageClassInformation" @@
  68 :> "QueryStatInformation" @@
  69 :> "QueryMemoryPartitionInformation" @@
  70 :> "QuerySatLxInformation" @@
  71 :> "QueryCaseSensitiveInformation" @@
  72 :> "QueryLinkInformationEx" @@
  73 :> "QueryLinkInfomraitonBypassAccessCheck" @@
  74 :> "QueryStorageReservedIdInformation" @@
  75 :> "QueryCaseSensitiveInformationForceAccessCheck"

SetFileSub == 
  4 :> "SetBasicInformationFile" @@
  10 :> "SetRenameInformationFile" @@
  11 :> "SetLinkInformationFile" @@
  13 :> "SetDispositionInformationFile" @@
  14 :> "SetPositionInformationFile" @@
  19 :> "SetAllocationInformationFile" @@
  20 :> "SetEndOfFileInformationFile" @@
  22 :> "SetFileStreamInformation" @@
  23 :> "SetPipeInformation" @@
  39 :> "SetValidDataLengthInformationFile" @@
  40 :> "SetShortNameInformation" @@
  61 :> "SetReplaceCompletionInformation" @@
  64 :> "SetDispositionInformationEx" @@
  65 :> "SetRenameInformationEx" @@
  66 :> "SetRenameInformationExBypassAccessCheck" @@
  74 :> "SetStorageReservedIdInformation"

DirectorySub == 
  1 :> "QueryDirectory" @@
  2 :> "NotifyChangeDirectory"

PnpSub == 
  0 :> "StartDevice" @@
  1 :> "QueryRemoveDevice" @@
  2 :> "RemoveDevice" @@
  3 :> "CancelRemoveDevice" @@
  4 :> "StopDevice" @@
  5 :> "QueryStopDevice" @@
  6 :> "CancelStopDevice" @@
  7 :> "QueryDeviceRelations" @@
  8 :> "QueryInterface" @@
  9 :> "QueryCapabilities" @@
  10 :> "QueryResources" @@
  11 :> "QueryResourceRequirements" @@
  12 :> "QueryDeviceText" @@
  13 :> "FilterResourceRequirements" @@
  15 :> "ReadConfig" @@
  16 :> "WriteConfig" @@
  17 :> "Eject" @@
  18 :> "SetLock" @@
  19 :> "QueryId2" @@
  20 :> "QueryPnpDeviceState" @@
  21 :> "QueryBusInformation" @@
  22 :> "DeviceUsageNotification" @@
  23 :> "SurpriseRemoval" @@
  24 :> "QueryLegacyBusInformation"

LockSub == 
  1 :> "LockFile" @@
  2 :> "UnlockFileSingle" @@
  3 :> "UnlockFileAll" @@
  4 :> "UnlockFileByKey"

RegTypeName == 
  0 :> "REG_NONE" @@
  1 :> "REG_SZ" @@
  2 :> "REG_EXPAND_SZ" @@
  3 :> "REG_BINARY" @@
  4 :> "REG_DWORD" @@
  5 :> "REG_DWORD_BIG_ENDIAN" @@
  6 :> "REG_LINK" @@
  7 :> "REG_MULTI_SZ" @@
  8 :> "REG_RESOURCE_LIST" @@
  9 :> "REG_FULL_RESOURCE_DESCRIPTOR" @@
  10 :> "REG_RESOURCE_REQUIREMENTS_LIST" @@
  11 :> "REG_QWORD"

KeyInfoClass == 
  0 :> "Basic" @@
  1 :> "Node" @@
  2 :> "Full" @@
  3 :> "Name" @@
  4 :> "Cached" @@
  5 :> "Flags" @@
  6 :> "Virtualization" @@
  7 :> "HandleTags" @@
  8 :> "Trust" @@
  9 :> "Layer"

ValueInfoClass == 
  0 :> "KeyValueBasicInformation" @@
  1 :> "KeyValueFullInformation" @@
  2 :> "KeyValuePartialInformation" @@
  3 :> "KeyValueFullInformationAlign64" @@
  4 :> "KeyValuePartialInformationAlign64" @@
  5 :> "KeyValueLayerInformation"

FileInfoClass == 
  0 :> "Unknown" @@
  1 :> "FileDirectoryInformation" @@
  2 :> "FileFullDirectoryInformation" @@
  3 :> "FileBothDirectoryInformation" @@
  4 :> "FileBasicInformation" @@
  5 :> "FileStandardInformation" @@
  6 :> "FileInternalInformation" @@
  7 :> "FileEaInformation" @@
  8 :> "FileAccessInformation" @@
  9 :> "FileNameInformation" @@
  10 :> "FileRenameInformation" @@
  11 :> "FileLinkInformation" @@
  12 :> "FileNamesInformation" @@
  13 :> "FileDispositionInformation" @@
  14 :> "FilePositionInformation" @@
  15 :> "FileFullEaInformation" @@
  16 :> "FileModeInformation" @@
  17 :> "FileAlignmentInformation" @@
  18 :> "FileAllInformation" @@
  19 :> "FileAllocationInformation" @@
  20 :> "FileEndOfFileInformation" @@
  21 :> "FileAlternateNameInformation" @@
  22 :> "FileStreamInformation" @@
  23 :> "FilePipeInformation" @@
  24 :> "FilePipeLocalInformation" @@
  25 :> "FilePipeRemoteInformation" @@
  26 :> "FileMailslotQueryInformation" @@
  27 :> "FileMailslotSetInformation" @@
  28 :> "FileCompressionInformation" @@
  29 :> "FileObjectIdInformation" @@
  30 :> "FileCompletionInformation" @@
  31 :> "FileMoveClusterInformation" @@
  32 :> "FileQuotaInformation" @@
  33 :> "FileReparsePointInformation" @@
  34 :> "FileNetworkOpenInformation" @@
  35 :> "FileAttributeTagInformation" @@
  36 :> "FileTrackingInformation" @@
  37 :> "FileIdBothDirectoryInformation" @@
  38 :> "FileIdFullDirectoryInformation" @@
  39 :> "FileValidDataLengthInformation" @@
  40 :> "FileShortNameInformation" @@
  41 :> "FileIoCompletionNotificationInformation" @@
  42 :> "FileIoStatusBlockRangeInformation" @@
  43 :> "FileIoPriorityHintInformation" @@
  44 :> "FileSfioReserveInformation" @@
  45 :> "FileSfioVolumeInformation" @@
  46 :> "FileHardLinkInformation" @@
  47 :> "FileProcessIdsUsingFileInformation" @@
  48 :> "FileNormalizedNameInformation" @@
  49 :> "FileNetworkPhysicalNameInformation" @@
  50 :> "FileIdGlobalTxDirectoryInformation" @@
  51 :> "FileIsRemoteDeviceInformation" @@
  52 :> "FileUnusedInformation" @@
  53 :> "FileNumaNodeInformation" @@
  54 :> "FileStandardLinkInformation" @@
  55 :> "FileRemoteProtocolInformation" @@
  56 :> "FileRenameInformationBypassAccessCheck" @@
  57 :> "FileLinkInformationBypassAccessCheck" @@
  58 :> "FileVolumeNameInformation" @@
  59 :> "FileIdInformation" @@
  60 :> "FileIdExtdDirectoryInformation" @@
  61 :> "FileReplaceCompletionInformation" @@
  62 :> "FileHardLinkFullIdInformation" @@
  63 :> "FileIdExtdBothDirectoryInformation" @@
  64 :> "FileDispositionInformationEx" @@
  65 :> "FileRenameInformationEx" @@
  66 :> "FileRenameInformationExBypassAccessCheck" @@
  67 :> "FileDesiredStorageClassInformation" @@
  68 :> "FileStatInformation" @@
  69 :> "FileMemoryPartitionInformation" @@
  70 :> "FileMaximumInformation" @@
  71 :> "SeShutdownPrivilege" @@
  72 :> "SeChangeNotifyPrivilege" @@
  73 :> "SeUndockPrivilege" @@
  74 :> "SeIncreaseWorkingSetPrivilege" @@
  75 :> "SeTimeZonePrivilege"

FileDisposition == 
  0 :> "Supersede" @@
  1 :> "Open" @@
  2 :> "Create" @@
  3 :> "OpenIf" @@
  4 :> "Overwrite" @@
  5 :> "OverwriteIf"

FileOpenResult == 
  0 :> "Superseded" @@
  1 :> "Opened" @@
  2 :> "Created" @@
  3 :> "Overwritten" @@
  4 :> "Exists" @@
  5 :> "DoesNotExist"

SetInfoClass == 0 :> "KeyWriteTimeInformation" @@ 1 :> "KeyWow64FlagsInformation" @@ 5 :> "KeySetHandleTagsInformation"

(* Result codes, keyed by lower-case hex. *)
ResultName ==
  "0" :> "SUCCESS" @@
  "103" :> "" @@
  "104" :> "REPARSE" @@
  "105" :> "MORE ENTRIES" @@
  "108" :> "OPLOCK BREAK IN PROGRESS" @@
  "10b" :> "NOTIFY CLEANUP" @@
  "10c" :> "NOTIFY ENUM DIR" @@
  "12a" :> "FILE LOCKED WITH ONLY READERS" @@
  "12b" :> "FILE LOCKED WITH WRITERS" @@
  "215" :> "OPLOCK SWITCHED TO NEW HANDLE" @@
  "216" :> "OPLOCK HANDLE CLOSED" @@
  "367" :> "WAIT FOR OPLOCK" @@
  "40000016" :> "PREDEFINED HANDLE" @@
  "c0000001" :> "UNSUCCESSFUL" @@
  "80000015" :> "INVALID EA FLAG" @@
  "80000002" :> "DATATYPE MISALIGNMENT" @@
  "80000005" :> "BUFFER OVERFLOW" @@
  "80000006" :> "NO MORE FILES" @@
  "8000001a" :> "NO MORE ENTRIES" @@
  "c0000101" :> "NOT EMPTY" @@
  "c0000002" :> "NOT IMPLEMENTED" @@
  "c0000003" :> "INVALID INFO CLASS" @@
  "c0000004" :> "INFO LENGTH MISMATCH" @@
  "c0000005" :> "ACCESS VIOLATION" @@
  "c0000006" :> "IN PAGE ERROR" @@
  "c0000008" :> "INVALID HANDLE" @@
  "c000000d" :> "INVALID PARAMETER" @@
  "c000000e" :> "NO SUCH DEVICE" @@
  "c000000f" :> "NO SUCH FILE" @@
  "c0000010" :> "INVALID DEVICE REQUEST" @@
  "c0000011" :> "END OF FILE" @@
  "c0000012" :> "WRONG VOLUME" @@
  "c0000013" :> "NO MEDIA" @@
  "c0000015" :> "NONEXISTENT SECTOR" @@
  "c0000017" :> "NO MEMORY" @@
  "c0000021" :> "ALREADY COMMITED" @@
  "c0000022" :> "ACCESS DENIED" @@
  "c0000023" :> "BUFFER TOO SMALL" @@
  "c0000024" :> "OBJECT TYPE MISMATCH" @@
  "c0000032" :> "DISK CORRUPT" @@
  "c0000033" :> "NAME INVALID" @@
  "c0000034" :> "NAME NOT FOUND" @@
  "c0000035" :> "NAME COLLISION" @@
  "c0000039" :> "OBJECT PATH INVALID" @@
  "c000003a" :> "PATH NOT FOUND" @@
  "c000003b" :> "PATH SYNTAX BAD" @@
  "c000003c" :> "DATA OVERRUN" @@
  "c000003f" :> "CRC ERROR" @@
  "c0000043" :> "SHARING VIOLATION" @@
  "c0000044" :> "QUOTA EXCEEDED" @@
  "c000004f" :> "EAS NOT SUPPORTED" @@
  "c0000050" :> "EA TOO LARGE" @@
  "c0000051" :> "NONEXISTENT EA ENTRY" @@
  "c0000052" :> "NO EAS ON FILE" @@
  "c0000053" :> "EA CORRUPTED ERROR" @@
  "c0000054" :> "FILE LOCK CONFLICT" @@
  "c0000055" :> "NOT GRANTED" @@
  "c0000056" :> "DELETE PENDING" @@
  "c0000061" :> "PRIVILEGE NOT HELD" @@
  "c000006d" :> "LOGON FAILURE" @@
  "c000007e" :> "RANGE NOT LOCKED" @@
  "c000007f" :> "DISK FULL" @@
  "c0000098" :> "FILE INVALID" @@
  "c000009a" :> "INSUFFICIENT RESOURCES" @@
  "c000009c" :> "DEVICE DATA ERROR" @@
  "c000009d" :> "DEVICE NOT CONNECTED" @@
  "c00000a2" :> "MEDIA WRITE PROTECTED" @@
  "c00000a5" :> "BAD IMPERSONATION" @@
  "c00000ab" :> "INSTANCE NOT AVAILABLE" @@
  "c00000ac" :> "PIPE NOT AVAILABLE" @@
  "c00000ad" :> "INVALID PIPE STATE" @@
  "c00000ae" :> "PIPE BUSY" @@
  "c00000b0" :> "PIPE DISCONNECTED" @@
  "c00000b1" :> "PIPE CLOSING" @@
  "c00000b2" :> "PIPE CONNECTED" @@
  "c00000b3" :> "PIPE LISTENING" @@
  "c00000b4" :> "INVALID READ MODE" @@
  "c00000b5" :> "IO TIMEOUT" @@
  "c00000ba" :> "IS DIRECTORY" @@
  "c00000bb" :> "NOT SUPPORTED" @@
  "c00000bd" :> "DUPLICATE NAME" @@
  "c00000be" :> "BAD NETWORK PATH" @@
  "c00000c1" :> "BAD NETWORK PATH" @@
  "c00000c3" :> "INVALID NETWORK RESPONSE" @@
  "c00000c4" :> "NETWORK ERROR" @@
  "c00000cc" :> "BAD NETWORK NAME" @@
  "c00000d4" :> "BAD NETWORK NAME" @@
  "c00000d8" :> "CANT WAIT" @@
  "c00000d9" :> "PIPE EMPTY" @@
  "c00000db" :> "CSC OBJECT PATH NOT FOUND" @@
  "c00000e2" :> "OPLOCK NOT GRANTED" @@
  "c00000ef" :> "INVALID PARAMETER 1" @@
  "c00000f0" :> "INVALID PARAMETER 2" @@
  "c00000f1" :> "INVALID PARAMETER 3" @@
  "c00000f2" :> "INVALID PARAMETER 4" @@
  "c00000fb" :> "REDIRECTOR NOT STARTED" @@
  "c0000102" :> "FILE CORRUPT" @@
  "c0000103" :> "NOT A DIRECTORY" @@
  "c0000107" :> "FILES OPEN" @@
  "c000010d" :> "CANNOT IMPERSONATE" @@
  "c0000120" :> "CANCELLED" @@
  "c0000121" :> "CANNOT DELETE" @@
  "c0000123" :> "FILE DELETED" @@
  "c0000128" :> "FILE CLOSED" @@
  "c000012a" :> "THREAD NOT IN PROCESS" @@
  "c0000148" :> "INVALID LEVEL" @@
  "c000014b" :> "PIPE BROKEN" @@
  "c000014c" :> "REGISTRY CORRUPT" @@
  "c000014d" :> "IO FAILED" @@
  "c000017c" :> "KEY DELETED" @@
  "c0000181" :> "CHILD MUST BE VOLATILE" @@
  "c0000184" :> "INVALID DEVICE STATE" @@
  "c0000185" :> "IO DEVICE ERROR" @@
  "c0000188" :> "LOG FILE FULL" @@
  "c000019c" :> "FS DRIVER REQUIRED" @@
  "c0000205" :> "INSUFFICIENT SERVER RESOURCES" @@
  "c0000207" :> "INVALID ADDRESS COMPONENT" @@
  "c000020c" :> "DISCONNECTED" @@
  "c0000225" :> "NOT FOUND" @@
  "c0000243" :> "USER MAPPED FILE" @@
  "c0000248" :> "LOGIN WKSTA RESTRICTION" @@
  "c0000257" :> "PATH NOT COVERED" @@
  "c000026d" :> "DFS UNAVAILABLE" @@
  "c0000273" :> "NO MORE MATCHES" @@
  "c0000275" :> "NOT REPARSE POINT" @@
  "c00002ea" :> "CANNOT MAKE" @@
  "c00002f0" :> "OBJECTID NOT FOUND" @@
  "c0000388" :> "DOWNGRADE DETECTED" @@
  "c0190044" :> "CANNOT EXECUTE FILE IN TRANSACTION" @@
  "c0000425" :> "HIVE UNLOADED" @@
  "c0000427" :> "FILE SYSTEM LIMITATION" @@
  "c0000463" :> "DEVICE FEATURE NOT SUPPORTED" @@
  "c000046d" :> "OBJECT NOT EXTERNALLY BACKED" @@
  "c0000909" :> "CANNOT BREAK OPLOCK" @@
  "c000a2a1" :> "STATUS_OFFLOAD_READ_FLT_NOT_SUPPORTED" @@
  "c000a2a2" :> "STATUS_OFFLOAD_WRITE_FLT_NOT_SUPPORTED" @@
  "c0190001" :> "TRANSACTIONAL CONFLICT" @@
  "c0190002" :> "INVALID TRANSACTION" @@
  "c0190003" :> "TRANSACTION_NOT_ACTIVE" @@
  "c019003e" :> "EFS NOT ALLOWED IN TRANSACTION" @@
  "c019003f" :> "TRANSACTIONAL OPEN NOT ALLOWED" @@
  "c0190040" :> "TRANSACTED MAPPING UNSUPPORTED REMOTE" @@
  "c000a2a3" :> "OFFLOAD READ FILE NOT SUPPORTED" @@
  "c000a2a4" :> "OFFLOAD READ FILE NOT SUPPORTED" @@
  "c0190049" :> "SPARSE NOT ALLOWED IN TRANSACTION" @@
  "c01c0004" :> "FAST IO DISALLOWED"

(* Device and file system control codes. *)
ControlName ==
  "24058" :> "IOCTL_CDROM_GET_CONFIGURATION" @@
  "24800" :> "IOCTL_CDROM_CHECK_VERIFY" @@
  "24804" :> "IOCTL_CDROM_MEDIA_REMOVAL" @@
  "24808" :> "IOCTL_CDROM_EJECT_MEDIA" @@
  "2480c" :> "IOCTL_CDROM_LOAD_MEDIA" @@
  "41018" :> "IOCTL_SCSI_GET_ADDRESS" @@
  "41020" :> "IOCTL_SCSI_GET_DUMP_POINTERS" @@
  "41024" :> "IOCTL_SCSI_FREE_DUMP_POINTERS" @@
  "4d004" :> "IOCTL_SCSI_PASS_THROUGH" @@
  "4d014" :> "IOCTL_SCSI_PASS_THROUGH_DIRECT" @@
  "60198" :> "FSCTL_DFS_REPORT_INCONSISTENCY" @@
  "60190" :> "FSCTL_DFS_TRANSLATE_PATH" @@
  "60194" :> "FSCTL_DFS_GET_REFERRALS" @@
  "6019c" :> "FSCTL_DFS_IS_SHARE_IN_DFS" @@
  "601a0" :> "FSCTL_DFS_IS_ROOT" @@
  "601a4" :> "FSCTL_DFS_GET_VERSION" @@
  "70000" :> "IOCTL_DISK_GET_DRIVE_GEOMETRY" @@
  "70014" :> "IOCTL_DISK_VERIFY" @@
  "70020" :> "IOCTL_DISK_PERFORMANCE" @@
  "70024" :> "IOCTL_DISK_IS_WRITABLE" @@
  "70028" :> "IOCTL_DISK_LOGGING" @@
  "70030" :> "IOCTL_DISK_HISTOGRAM_STRUCTURE" @@
  "70034" :> "IOCTL_DISK_HISTOGRAM_DATA" @@
  "70038" :> "IOCTL_DISK_HISTOGRAM_RESET" @@
  "7003c" :> "IOCTL_DISK_REQUEST_STRUCTURE" @@
  "70040" :> "IOCTL_DISK_REQUEST_DATA" @@
  "70048" :> "IOCTL_DISK_GET_PARTITION_INFO_EX" @@
  "70050" :> "IOCTL_DISK_GET_DRIVE_LAYOUT_EX" @@
  "70060" :> "IOCTL_DISK_PERFORMANCE_OFF" @@
  "700a0" :> "IOCTL_DISK_GET_DRIVE_GEOMETRY_EX" @@
  "700f0" :> "IOCTL_DISK_GET_DISK_ATTRIBUTES" @@
  "70140" :> "IOCTL_DISK_UPDATE_PROPERTIES" @@
  "70214" :> "IOCTL_DISK_GET_CLUSTER_INFO" @@
  "70c00" :> "IOCTL_DISK_GET_MEDIA_TYPES" @@
  "74004" :> "IOCTL_DISK_GET_PARTITION_INFO" @@
  "7400c" :> "IOCTL_DISK_GET_DRIVE_LAYOUT" @@
  "7405c" :> "IOCTL_DISK_GET_LENGTH_INFO" @@
  "74080" :> "SMART_GET_VERSION" @@
  "740d4" :> "IOCTL_DISK_GET_CACHE_INFORMATION" @@
  "74800" :> "IOCTL_DISK_CHECK_VERIFY" @@
  "74804" :> "IOCTL_DISK_MEDIA_REMOVAL" @@
  "74808" :> "IOCTL_DISK_EJECT_MEDIA" @@
  "7480c" :> "IOCTL_DISK_LOAD_MEDIA" @@
  "74810" :> "IOCTL_DISK_RESERVE" @@
  "74814" :> "IOCTL_DISK_RELEASE" @@
  "74818" :> "IOCTL_DISK_FIND_NEW_DEVICES" @@
  "7c008" :> "IOCTL_DISK_SET_PARTITION_INFO" @@
  "7c010" :> "IOCTL_DISK_SET_DRIVE_LAYOUT" @@
  "7c018" :> "IOCTL_DISK_FORMAT_TRACKS" @@
  "7c01c" :> "IOCTL_DISK_REASSIGN_BLOCKS" @@
  "7c02c" :> "IOCTL_DISK_FORMAT_TRACKS_EX" @@
  "7c04c" :> "IOCTL_DISK_SET_PARTITION_INFO_EX" @@
  "7c054" :> "IOCTL_DISK_SET_DRIVE_LAYOUT_EX" @@
  "7c058" :> "IOCTL_DISK_CREATE_DISK" @@
  "7c084" :> "SMART_SEND_DRIVE_COMMAND" @@
  "7c088" :> "SMART_RCV_DRIVE_DATA" @@
  "7c0a4" :> "IOCTL_DISK_REASSIGN_BLOCKS_EX" @@
  "7c0c8" :> "IOCTL_DISK_UPDATE_DRIVE_SIZE" @@
  "7c0d0" :> "IOCTL_DISK_GROW_PARTITION" @@
  "7c0d8" :> "IOCTL_DISK_SET_CACHE_INFORMATION" @@
  "7c0f4" :> "IOCTL_DISK_SET_DISK_ATTRIBUTES" @@
  "7c218" :> "IOCTL_DISK_SET_CLUSTER_INFO" @@
  "90100" :> "FSCTL_SIS_COPYFILE" @@
  "90000" :> "FSCTL_REQUEST_OPLOCK_LEVEL_1" @@
  "90004" :> "FSCTL_REQUEST_OPLOCK_LEVEL_2" @@
  "90008" :> "FSCTL_REQUEST_BATCH_OPLOCK" @@
  "9000c" :> "FSCTL_OPLOCK_BREAK_ACKNOWLEDGE" @@
  "90010" :> "FSCTL_OPBATCH_ACK_CLOSE_PENDING" @@
  "90014" :> "FSCTL_OPLOCK_BREAK_NOTIFY" @@
  "90018" :> "FSCTL_LOCK_VOLUME" @@
  "9001c" :> "FSCTL_UNLOCK_VOLUME" @@
  "90020" :> "FSCTL_DISMOUNT_VOLUME" @@
  "90028" :> "FSCTL_IS_VOLUME_MOUNTED" @@
  "9002c" :> "FSCTL_IS_PATHNAME_VALID" @@
  "90030" :> "FSCTL_MARK_VOLUME_DIRTY" @@
  "9003b" :> "FSCTL_QUERY_RETRIEVAL_POINTERS" @@
  "9003c" :> "FSCTL_GET_COMPRESSION" @@
  "90050" :> "FSCTL_OPLOCK_BREAK_ACK_NO_2" @@
  "90058" :> "FSCTL_QUERY_FAT_BPB" @@
  "9005c" :> "FSCTL_REQUEST_FILTER_OPLOCK" @@
  "90060" :> "FSCTL_FILESYSTEM_GET_STATISTICS" @@
  "90064" :> "FSCTL_GET_NTFS_VOLUME_DATA" @@
  "90068" :> "FSCTL_GET_NTFS_FILE_RECORD" @@
  "9006f" :> "FSCTL_GET_VOLUME_BITMAP" @@
  "90073" :> "FSCTL_GET_RETRIEVAL_POINTERS" @@
  "90074" :> "FSCTL_MOVE_FILE" @@
  "90078" :> "FSCTL_IS_VOLUME_DIRTY" @@
  "90083" :> "FSCTL_ALLOW_EXTENDED_DASD_IO" @@
  "90087" :> "FSCTL_READ_PROPERTY_DATA" @@
  "9008b" :> "FSCTL_WRITE_PROPERTY_DATA" @@
  "9008f" :> "FSCTL_FIND_FILES_BY_SID" @@
  "90097" :> "FSCTL_DUMP_PROPERTY_DATA" @@
  "90098" :> "FSCTL_SET_OBJECT_ID" @@
  "9009c" :> "FSCTL_GET_OBJECT_ID" @@
  "900a0" :> "FSCTL_DELETE_OBJECT_ID" @@
  "900a4" :> "FSCTL_SET_REPARSE_POINT" @@
  "900a8" :> "FSCTL_GET_REPARSE_POINT" @@
  "900ac" :> "FSCTL_DELETE_REPARSE_POINT" @@
  "900b3" :> "FSCTL_ENUM_USN_DATA" @@
  "900bb" :> "FSCTL_READ_USN_JOURNAL" @@
  "900bc" :> "FSCTL_SET_OBJECT_ID_EXTENDED" @@
  "900c0" :> "FSCTL_CREATE_OR_GET_OBJECT_ID" @@
  "900c4" :> "FSCTL_SET_SPARSE" @@
  "900d7" :> "FSCTL_SET_ENCRYPTION" @@
  "900db" :> "FSCTL_ENCRYPTION_FSCTL_IO" @@
  "900df" :> "FSCTL_WRITE_RAW_ENCRYPTED" @@
  "900e3" :> "FSCTL_READ_RAW_ENCRYPTED" @@
  "900e7" :> "FSCTL_CREATE_USN_JOURNAL" @@
  "900eb" :> "FSCTL_READ_FILE_USN_DATA" @@
  "900ef" :> "FSCTL_WRITE_USN_CLOSE_RECORD" @@
  "900f0" :> "FSCTL_EXTEND_VOLUME" @@
  "900f4" :> "FSCTL_QUERY_USN_JOURNAL" @@
  "900f8" :> "FSCTL_DELETE_USN_JOURNAL" @@
  "900fc" :> "FSCTL_MARK_HANDLE" @@
  "90120" :> "FSCTL_FILE_PREFETCH" @@
  "901af" :> "CSC_FSCTL_OPERATION_QUERY_HANDLE" @@
  "901f0" :> "FSCTL_QUERY_DEPENDENT_VOLUME" @@
  "90230" :> "FSCTL_GET_BOOT_AREA_INFO" @@
  "90240" :> "FSCTL_REQUEST_OPLOCK" @@
  "90244" :> "FSCTL_CSV_TUNNEL_REQUEST" @@
  "9024c" :> "FSCTL_QUERY_FILE_SYSTEM_RECOGNITION" @@
  "90254" :> "FSCTL_CSV_GET_VOLUME_NAME_FOR_VOLUME_MOUNT_POINT" @@
  "90258" :> "FSCTL_CSV_GET_VOLUME_PATH_NAMES_FOR_VOLUME_NAME" @@
  "9025c" :> "FSCTL_IS_FILE_ON_CSV_VOLUME" @@
  "90260" :> "FSCTL_CORRUPTION_HANDLING" @@
  "90270" :> "FSCTL_SET_PURGE_FAILURE_MODE" @@
  "90277" :> "FSCTL_QUERY_FILE_LAYOUT" @@
  "90278" :> "FSCTL_IS_VOLUME_OWNED_BYCSVFS" @@
  "9027c" :> "FSCTL_GET_INTEGRITY_INFORMATION" @@
  "90284" :> "FSCTL_QUERY_FILE_REGIONS" @@
  "902b0" :> "FSCTL_SCRUB_DATA" @@
  "902b8" :> "FSCTL_DISABLE_LOCAL_BUFFERING" @@
  "9030c" :> "FSCTL_SET_EXTERNAL_BACKING" @@
  "c4003" :> "FSCTL_MAILSLOT_PEEK" @@
  "980d0" :> "FSCTL_ENABLE_UPGRADE" @@
  "941e4" :> "FSCTL_TXFS_LIST_TRANSACTIONS" @@
  "90310" :> "FSCTL_GET_EXTERNAL_BACKING" @@
  "940b7" :> "FSCTL_SECURITY_ID_CHECK" @@
  "940cf" :> "FSCTL_QUERY_ALLOCATED_RANGES" @@
  "94264" :> "FSCTL_OFFLOAD_READ" @@
  "980c8" :> "FSCTL_SET_ZERO_DATA" @@
  "9c104" :> "FSCTL_SIS_LINK_FILES" @@
  "98208" :> "FSCTL_FILE_LEVEL_TRIM" @@
  "98268" :> "FSCTL_OFFLOAD_WRITE" @@
  "9c040" :> "FSCTL_SET_COMPRESSION" @@
  "9c108" :> "FSCTL_HSM_MSG" @@
  "9c2b4" :> "FSCTL_REPAIR_COPIES" @@
  "110020" :> "FSCTL_PIPE_SET_CLIENT_PROCESS" @@
  "110000" :> "FSCTL_PIPE_ASSIGN_EVENT" @@
  "110004" :> "FSCTL_PIPE_DISCONNECT" @@
  "110008" :> "FSCTL_PIPE_LISTEN" @@
  "110010" :> "FSCTL_PIPE_QUERY_EVENT" @@
  "110018" :> "FSCTL_PIPE_WAIT" @@
  "11001c" :> "FSCTL_PIPE_IMPERSONATE" @@
  "119ff8" :> "FSCTL_PIPE_INTERNAL_WRITE" @@
  "110024" :> "FSCTL_QUERY_CLIENT_PROCESS" @@
  "11400c" :> "FSCTL_PIPE_PEEK" @@
  "116000" :> "FSCTL_PIPE_INTERNAL_READ" @@
  "11c017" :> "FSCTL_PIPE_TRANSCEIVE" @@
  "11dfff" :> "FSCTL_PIPE_INTERNAL_TRANSCEIVE" @@
  "140191" :> "FSCTL_LMR_START" @@
  "140193" :> "IOCTL_SMBMRX_START" @@
  "140194" :> "FSCTL_LMR_STOP" @@
  "140197" :> "IOCTL_SMBMRX_STOP" @@
  "140198" :> "IOCTL_SMBMRX_GETSTATE" @@
  "140199" :> "FSCTL_NETWORK_SET_CONFIGURATION_INFO" @@
  "14019e" :> "FSCTL_NETWORK_GET_CONFIGURATION_INFO" @@
  "1401a3" :> "FSCTL_NETWORK_GET_CONNECTION_INFO" @@
  "1401a7" :> "FSCTL_NETWORK_ENUMERATE_CONNECTIONS" @@
  "1401ab" :> "FSCTL_LMR_FORCE_DISCONNECT" @@
  "1401ac" :> "FSCTL_NETWORK_DELETE_CONNECTION" @@
  "1401b0" :> "FSCTL_LMR_BIND_TO_TRANSPORT" @@
  "1401b4" :> "FSCTL_LMR_UNBIND_FROM_TRANSPORT" @@
  "1401bb" :> "FSCTL_LMR_ENUMERATE_TRANSPORTS" @@
  "1401c4" :> "FSCTL_LMR_GET_HINT_SIZE" @@
  "1401c8" :> "FSCTL_LMR_TRANSACT" @@
  "1401cc" :> "FSCTL_LMR_ENUMERATE_PRINT_INFO" @@
  "1401d0" :> "FSCTL_NETWORK_GET_STATISTICS" @@
  "1401d4" :> "FSCTL_LMR_START_SMBTRACE" @@
  "1401d8" :> "FSCTL_LMR_END_SMBTRACE" @@
  "1401dc" :> "FSCTL_LMR_START_RBR" @@
  "1401e0" :> "FSCTL_NETWORK_SET_DOMAIN_NAME" @@
  "1401e4" :> "FSCTL_LMR_SET_SERVER_GUID" @@
  "1401e8" :> "FSCTL_LMR_QUERY_TARGET_INFO" @@
  "1401ec" :> "FSCTL_LMR_QUERY_DEBUG_INFO" @@
  "1401f4" :> "IOCTL_SMBMRX_ADDCONN" @@
  "1401f8" :> "IOCTL_SMBMRX_DELCONN" @@
  "140fdb" :> "IOCTL_SHADOW_END_REINT" @@
  "140378" :> "IOCTL_UMRX_RELEASE_THREADS" @@
  "14037e" :> "IOCTL_UMRX_GET_REQUEST" @@
  "140382" :> "IOCTL_UMRX_RESPONSE_AND_REQUEST" @@
  "140386" :> "IOCTL_UMRX_RESPONSE" @@
  "140388" :> "IOCTL_UMRX_GET_LOCK_OWNER" @@
  "14038c" :> "IOCTL_LMR_QUERY_REMOTE_SERVER_NAME" @@
  "140390" :> "IOCTL_LMR_DISABLE_LOCAL_BUFFERING" @@
  "140394" :> "IOCTL_UMRX_PREPARE_QUEUE" @@
  "140397" :> "IOCTL_LMR_LWIO_POSTIO" @@
  "14039b" :> "IOCTL_LMR_LWIO_PREIO" @@
  "1403e8" :> "FSCTL_NETWORK_REMOTE_BOOT_INIT_SCRT" @@
  "2d0c00" :> "IOCTL_STORAGE_GET_MEDIA_TYPES" @@
  "140fff" :> "IOCTL_GETSHADOW" @@
  "2d0800" :> "IOCTL_STORAGE_CHECK_VERIFY2" @@
  "2d080c" :> "IOCTL_STORAGE_LOAD_MEDIA2" @@
  "2d0940" :> "IOCTL_STORAGE_EJECTION_CONTROL" @@
  "2d0944" :> "IOCTL_STORAGE_MCN_CONTROL" @@
  "2d0c04" :> "IOCTL_STORAGE_GET_MEDIA_TYPES_EX" @@
  "2d0c10" :> "IOCTL_STORAGE_GET_MEDIA_SERIAL_NUMBER" @@
  "2d0c14" :> "IOCTL_STORAGE_GET_HOTPLUG_INFO" @@
  "2d1080" :> "IOCTL_STORAGE_GET_DEVICE_NUMBER" @@
  "2d1100" :> "IOCTL_STORAGE_PREDICT_FAILURE" @@
  "2d1400" :> "IOCTL_STORAGE_QUERY_PROPERTY" @@
  "530190" :> "IOCTL_VOLSNAP_QUERY_ORIGINAL_VOLUME_NAME" @@
  "2d5004" :> "IOCTL_STORAGE_RESET_DEVICE" @@
  "2d4800" :> "IOCTL_STORAGE_CHECK_VERIFY" @@
  "2d4804" :> "IOCTL_STORAGE_MEDIA_REMOVAL" @@
  "2d4808" :> "IOCTL_STORAGE_EJECT_MEDIA" @@
  "2d480c" :> "IOCTL_STORAGE_LOAD_MEDIA" @@
  "2d4810" :> "IOCTL_STORAGE_RESERVE" @@
  "2d4814" :> "IOCTL_STORAGE_RELEASE" @@
  "2d4818" :> "IOCTL_STORAGE_FIND_NEW_DEVICES" @@
  "2d5000" :> "IOCTL_STORAGE_RESET_BUS" @@
  "2d518c" :> "IOCTL_STORAGE_QUERY_DEPENDENT_DISK" @@
  "2d5014" :> "IOCTL_STORAGE_BREAK_RESERVATION" @@
  "2d5018" :> "IOCTL_STORAGE_PERSISTENT_RESERVE_IN" @@
  "2d5140" :> "IOCTL_STORAGE_READ_CAPACITY" @@
  "2dcc18" :> "IOCTL_STORAGE_SET_HOTPLUG_INFO" @@
  "2dd01c" :> "IOCTL_STORAGE_PERSISTENT_RESERVE_OUT" @@
  "38a813" :> "IOCTL_CHANNEL_GET_SNDCHANNEL" @@
  "530018" :> "IOCTL_VOLSNAP_QUERY_NAMES_OF_SNAPSHOTS" @@
  "4d0000" :> "IOCTL_MOUNTDEV_QUERY_UNIQUE_ID" @@
  "4d0004" :> "IOCTL_MOUNTDEV_UNIQUE_ID_CHANGE_NOTIFY" @@
  "4d0008" :> "IOCTL_MOUNTDEV_QUERY_DEVICE_NAME" @@
  "4d000c" :> "IOCTL_MOUNTDEV_QUERY_SUGGESTED_LINK_NAME" @@
  "4d0010" :> "IOCTL_MOUNTDEV_LINK_CREATED" @@
  "4d0014" :> "IOCTL_MOUNTDEV_LINK_DELETED" @@
  "530024" :> "IOCTL_VOLSNAP_QUERY_DIFF_AREA" @@
  "53002c" :> "IOCTL_VOLSNAP_QUERY_DIFF_AREA_SIZES" @@
  "530034" :> "IOCTL_VOLSNAP_AUTO_CLEANUP" @@
  "53003c" :> "IOCTL_VOLSNAP_QUERY_REVERT" @@
  "530040" :> "IOCTL_VOLSNAP_REVERT_CLEANUP" @@
  "530048" :> "IOCTL_VOLSNAP_QUERY_REVERT_PROGRESS" @@
  "53004c" :> "IOCTL_VOLSNAP_CANCEL_REVERT" @@
  "530050" :> "IOCTL_VOLSNAP_QUERY_EPIC" @@
  "53005e" :> "IOCTL_VOLSNAP_QUERY_COPY_FREE_BITMAP" @@
  "534054" :> "IOCTL_VOLSNAP_QUERY_OFFLINE" @@
  "53019c" :> "IOCTL_VOLSNAP_QUERY_CONFIG_INFO" @@
  "5301a0" :> "IOCTL_VOLSNAP_HAS_CHANGED" @@
  "5301a4" :> "IOCTL_VOLSNAP_SET_SNAPSHOT_PRIORITY" @@
  "5301a8" :> "IOCTL_VOLSNAP_QUERY_SNAPSHOT_PRIORITY" @@
  "5301ae" :> "IOCTL_VOLSNAP_QUERY_DELTA_BITMAP" @@
  "5301b2" :> "IOCTL_VOLSNAP_QUERY_SNAPSHOT_SUPPLEMENTAL" @@
  "5301b6" :> "IOCTL_VOLSNAP_QUERY_COPIED_BITMAP" @@
  "5301b8" :> "IOCTL_VOLSNAP_QUERY_MOVE_LIST" @@
  "5301be" :> "IOCTL_VOLSNAP_QUERY_PRE_COPIED_BITMAP" @@
  "5301c2" :> "IOCTL_VOLSNAP_QUERY_USED_PRE_COPIED_BITMAP" @@
  "5301c6" :> "IOCTL_VOLSNAP_QUERY_DEFRAG_PRE_COPIED_BITMAP" @@
  "5301ca" :> "IOCTL_VOLSNAP_QUERY_FREESPACE_PRE_COPIED_BITMAP" @@
  "5301ce" :> "IOCTL_VOLSNAP_QUERY_HOTBLOCKS_PRE_COPIED_BITMAP" @@
  "5301d0" :> "IOCTL_VOLSNAP_QUERY_DIFF_AREA_FILE_SIZES" @@
  "53c000" :> "IOCTL_VOLSNAP_FLUSH_AND_HOLD_WRITES" @@
  "534058" :> "IOCTL_VOLSNAP_QUERY_DIFF_AREA_MINIMUM_SIZE" @@
  "534064" :> "IOCTL_VOLSNAP_BLOCK_DELETE_IN_THE_MIDDLE" @@
  "534070" :> "IOCTL_VOLSNAP_QUERY_APPLICATION_FLAGS" @@
  "534080" :> "IOCTL_VOLSNAP_QUERY_PERFORMANCE_COUNTERS" @@
  "534088" :> "IOCTL_VOLSNAP_QUERY_PRE_COPY_AMOUNTS" @@
  "53408c" :> "IOCTL_VOLSNAP_QUERY_DEFAULT_PRE_COPY_AMOUNTS" @@
  "53c198" :> "IOCTL_VOLSNAP_SET_APPLICATION_INFO" @@
  "53c004" :> "IOCTL_VOLSNAP_RELEASE_WRITES" @@
  "53c008" :> "IOCTL_VOLSNAP_PREPARE_FOR_SNAPSHOT" @@
  "53c00c" :> "IOCTL_VOLSNAP_ABORT_PREPARED_SNAPSHOT" @@
  "53c010" :> "IOCTL_VOLSNAP_COMMIT_SNAPSHOT" @@
  "53c014" :> "IOCTL_VOLSNAP_END_COMMIT_SNAPSHOT" @@
  "53c01c" :> "IOCTL_VOLSNAP_CLEAR_DIFF_AREA" @@
  "53c020" :> "IOCTL_VOLSNAP_ADD_VOLUME_TO_DIFF_AREA" @@
  "53c028" :> "IOCTL_VOLSNAP_SET_MAX_DIFF_AREA_SIZE" @@
  "53c030" :> "IOCTL_VOLSNAP_DELETE_OLDEST_SNAPSHOT" @@
  "53c038" :> "IOCTL_VOLSNAP_DELETE_SNAPSHOT" @@
  "53c044" :> "IOCTL_VOLSNAP_REVERT" @@
  "53c068" :> "IOCTL_VOLSNAP_SET_MAX_DIFF_AREA_SIZE_TEMP" @@
  "53c06c" :> "IOCTL_VOLSNAP_SET_APPLICATION_FLAGS" @@
  "53c07c" :> "IOCTL_VOLSNAP_SET_BC_FAILURE_MODE" @@
  "53c084" :> "IOCTL_VOLSNAP_SET_PRE_COPY_AMOUNTS" @@
  "53c090" :> "IOCTL_VOLSNAP_PRE_EXPOSE_DEVICES" @@
  "560000" :> "IOCTL_VOLUME_GET_VOLUME_DISK_EXTENTS" @@
  "560038" :> "IOCTL_VOLUME_GET_GPT_ATTRIBUTES" @@
  "700010" :> "IOCTL_DISK_QUERY_DEVICE_STATE" @@
  "704008" :> "IOCTL_DISK_QUERY_DISK_SIGNATURE"

RegistryAccess == <<
  <<{0, 1, 2, 3, 4, 5, 16, 17, 18, 19}, "All Access">>,
  <<{0, 1, 2, 3, 4, 17}, "Read/Write">>,
  <<{0, 3, 4, 17}, "Read">>,
  <<{1, 2, 17}, "Write">>,
  <<{0}, "Query Value">>,
  <<{1}, "Set Value">>,
  <<{2}, "Create Sub Key">>,
  <<{3}, "Enumerate Sub Keys">>,
  <<{4}, "Notify">>,
  <<{5}, "Create Link">>,
  <<{8, 9}, "WOW64_Res">>,
  <<{9}, "WOW64_32Key">>,
  <<{8}, "WOW64_64Key">>,
  <<{16}, "Delete">>,
  <<{17}, "Read Control">>,
  <<{18}, "Write DAC">>,
  <<{19}, "Write Owner">>,
  <<{20}, "Synchronize">>,
  <<{24}, "Access System Security">>,
  <<{25}, "Maximum Allowed">>>>

FileAccess == <<
  <<{0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 17, 18, 19, 20}, "All Access">>,
  <<{0, 1, 2, 3, 4, 5, 7, 8, 17, 20}, "Generic Read/Write/Execute">>,
  <<{0, 1, 2, 3, 4, 7, 8, 17, 20}, "Generic Read/Write">>,
  <<{0, 3, 5, 7, 17, 20}, "Generic Read/Execute">>,
  <<{1, 2, 4, 5, 7, 8, 17, 20}, "Generic Write/Execute">>,
  <<{0, 3, 7, 17, 20}, "Generic Read">>,
  <<{1, 2, 4, 8, 17, 20}, "Generic Write">>,
  <<{5, 7, 17, 20}, "Generic Execute">>,
  <<{0}, "Read Data/List Directory">>,
  <<{1}, "Write Data/Add File">>,
  <<{2}, "Append Data/Add Subdirectory/Create Pipe Instance">>,
  <<{3}, "Read EA">>,
  <<{4}, "Write EA">>,
  <<{5}, "Execute/Traverse">>,
  <<{6}, "Delete Child">>,
  <<{7}, "Read Attributes">>,
  <<{8}, "Write Attributes">>,
  <<{16}, "Delete">>,
  <<{17}, "Read Control">>,
  <<{18}, "Write DAC">>,
  <<{19}, "Write Owner">>,
  <<{20}, "Synchronize">>,
  <<{24}, "Access System Security">>,
  <<{25}, "Maximum Allowed">>>>

(* What GENERIC_READ, _WRITE, _EXECUTE, _ALL (bits 31, 30, 29, 28) grant. *)
RegistryGeneric == <<{0, 3, 4, 17}, {1, 2, 17}, {0, 3, 4, 17}, {0, 1, 2, 3, 4, 5, 16, 17, 18, 19}>>
FileGeneric == <<{0, 3, 7, 17, 20}, {1, 2, 4, 8, 17, 20}, {5, 7, 17, 20}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 17, 18, 19, 20}>>

CreateOptions == <<
  <<{0}, "Directory">>,
  <<{1}, "Write Through">>,
  <<{2}, "Sequential Access">>,
  <<{3}, "No Buffering">>,
  <<{4}, "Synchronous IO Alert">>,
  <<{5}, "Synchronous IO Non-Alert">>,
  <<{6}, "Non-Directory File">>,
  <<{7}, "Create Tree Connection">>,
  <<{8}, "Complete If Oplocked">>,
  <<{9}, "No EA Knowledge">>,
  <<{10}, "Open for Recovery">>,
  <<{11}, "Random Access">>,
  <<{12}, "Delete On Close">>,
  <<{13}, "Open By ID">>,
  <<{14}, "Open For Backup">>,
  <<{15}, "No Compression">>,
  <<{20}, "Reserve OpFilter">>,
  <<{21}, "Open Reparse Point">>,
  <<{22}, "Open No Recall">>,
  <<{23}, "Open For Free Space Query">>,
  <<{16}, "Open Requiring Oplock">>,
  <<{17}, "Disallow Exclusive">>>>

FileAttributes == <<
  <<{0}, "R">>,
  <<{1}, "H">>,
  <<{2}, "S">>,
  <<{4}, "D">>,
  <<{5}, "A">>,
  <<{6}, "D">>,
  <<{7}, "N">>,
  <<{8}, "T">>,
  <<{9}, "SF">>,
  <<{10}, "RP">>,
  <<{11}, "C">>,
  <<{12}, "O">>,
  <<{13}, "NCI">>,
  <<{14}, "E">>,
  <<{16}, "V">>>>

ShareModes == <<
  <<{0}, "Read">>,
  <<{1}, "Write">>,
  <<{2}, "Delete">>>>

IoFlags == <<
  <<{4}, "Buffered">>,
  <<{0}, "Non-cached">>,
  <<{1}, "Paging I/O">>,
  <<{2}, "Synchronous">>,
  <<{6}, "Synchronous Paging I/O">>,
  <<{22}, "Write Through">>>>

NotifyFlags == <<
  <<{0}, "FILE_NOTIFY_CHANGE_FILE_NAME">>,
  <<{1}, "FILE_NOTIFY_CHANGE_DIR_NAME">>,
  <<{0, 1}, "FILE_NOTIFY_CHANGE_NAME">>,
  <<{2}, "FILE_NOTIFY_CHANGE_ATTRIBUTES">>,
  <<{3}, "FILE_NOTIFY_CHANGE_SIZE">>,
  <<{4}, "FILE_NOTIFY_CHANGE_LAST_WRITE">>,
  <<{5}, "FILE_NOTIFY_CHANGE_LAST_ACCESS">>,
  <<{6}, "FILE_NOTIFY_CHANGE_CREATION">>,
  <<{7}, "FILE_NOTIFY_CHANGE_EA">>,
  <<{8}, "FILE_NOTIFY_CHANGE_SECURITY">>,
  <<{9}, "FILE_NOTIFY_CHANGE_STREAM_NAME">>,
  <<{10}, "FILE_NOTIFY_CHANGE_STREAM_SIZE">>,
  <<{11}, "FILE_NOTIFY_CHANGE_STREAM_WRITE">>>>

IoPriority == 1 :> "Very Low" @@ 2 :> "Low" @@ 3 :> "Normal" @@ 4 :> "High" @@ 5 :> "Critical"

SyncType == 0 :> "SyncTypeOther" @@ 1 :> "SyncTypeCreateSection"

(* First match wins; bit 9 adds the NOCACHE suffix. *)
PageProtections == <<<<1, "PAGE_READONLY">>, <<2, "PAGE_READWRITE">>, <<3, "PAGE_WRITECOPY">>, <<4, "PAGE_EXECUTE">>, <<5, "PAGE_EXECUTE_READ">>, <<6, "PAGE_EXECUTE_READWRITE">>>>

=============================================================================
