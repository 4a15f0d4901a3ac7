"""Codes of the specification's vocabularies (spec/Tables.tla)."""
import os
import re

_PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'Tables.tla')
with open(_PATH) as _f:
    _TEXT = _f.read()


def table(name):
    """{code: name}; codes are ints, hex-keyed codes become ints too."""
    m = re.search(r'^%s ==(.*?)(?=^\S+ ==|^=====|^\(\*|\Z)' % name, _TEXT, re.S | re.M)
    body = m.group(1)
    out = {}
    for k, q, v in re.findall(r'("?[0-9a-f]+"?) :> (")((?:[^"\\]|\\.)*)"', body):
        out[int(k.strip('"'), 16 if k.startswith('"') else 10)] = v
    return out


def masks(name):
    m = re.search(r'^%s ==(.*?)>>>>' % name, _TEXT, re.S | re.M)
    return [(sum(1 << int(b) for b in bits.split(',')), n)
            for bits, n in re.findall(r'<<\{([^}]*)\}, "([^"]*)">>', m.group(1) + '>>')]


PROCESS, REGISTRY, FILE, PROFILING, NETWORK = [table(n) for n in
                                               ('ProcessOp', 'RegistryOp', 'FileOp', 'ProfilingOp', 'NetworkOp')]
SUBS = {'QueryVolumeInformation': table('QueryVolumeSub'), 'SetVolumeInformation': table('SetVolumeSub'),
        'QueryInformationFile': table('QueryFileSub'), 'SetInformationFile': table('SetFileSub'),
        'DirectoryControl': table('DirectorySub'), 'PlugAndPlay': table('PnpSub'), 'LockUnlockFile': table('LockSub')}
RESULTS, CONTROLS = table('ResultName'), table('ControlName')
REGTYPES, KEYCLASSES, VALUECLASSES, FILECLASSES = [table(n) for n in
                                                   ('RegTypeName', 'KeyInfoClass', 'ValueInfoClass', 'FileInfoClass')]
COLUMNS, RELATIONS, ACTIONS = table('ColumnName'), table('RuleRelationName'), table('RuleActionName')
REGACCESS, FILEACCESS, OPTIONS, ATTRIBUTES, SHARES, IOFLAGS, NOTIFY = [masks(n) for n in (
    'RegistryAccess', 'FileAccess', 'CreateOptions', 'FileAttributes', 'ShareModes', 'IoFlags', 'NotifyFlags')]


def code(tab, name):
    return [k for k, v in tab.items() if v == name][0]
