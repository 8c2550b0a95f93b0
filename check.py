#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]   -- see DESIGN.md"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
from core import main, ToolError
import params
CHECKS = {}


def check(*props):
    def deco(f):
        for p in props:
            CHECKS[p] = f
        return f
    return deco


# ---------------------------------------------------------------- MinHash index
@check('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07')
def minhash(c):
    exe = c.build('mh')
    big = c.thorough
    if c.prop != 'C07':
        c.models(('MinHashIndex', 'MC_MinHashSet.cfg'), ('MinHashIndex', 'MC_MinHashBag.cfg'),
                 ('MinHashIndex', 'MC_MinHashStale.cfg', dict(expect='TableExact', note='control: re-insertion without eviction')))
        if big:
            c.model('MinHashIndex', 'MC_MinHashBig.cfg', note='larger scope')
    script = c.behaviours('MinHashGen', 'Gen_MinHash.cfg', limit=None if big else (700 if c.prop == 'C05' else 1400))
    c.behaviours('MinHashGen', 'Sim_MinHash.cfg', simulate=400 if big else 60, depth=16, dst=script)
    if big:
        c.behaviours('MinHashGen', 'Gen_MinHash4.cfg', limit=12000, dst=script)
    rounds = 12 if big else 1
    count = {'C05': 70}.get(c.prop, 330)
    for i in range(rounds):
        out = c.dir('t%d' % i)
        cmd = [exe, c.prop, out, 8, c.seed + 1000 * i, count] + ([script] if i == 0 else [])
        c.drive(cmd, out, need=dict(C01=['q', 'byid', 'bq', 'bulk', 'bulkremove', 'clear'], C02=['obs', 'noop', 'remove', 'clear'], C03=['q', 'bq', 'byid'],
                                    C04=['bulk', 'bulkremove', 'bq', 'bulksig', 'obs'], C05=['container', 'q', 'obs'], C06=['reject', 'obs', 'q'], C07=['cent'])[c.prop])
        c.judge('MinHashTrace', out, cmd)
    if c.prop == 'C06':     # what is refused must not depend on debug assertions
        exe = c.build('mh', plain=True)
        out = c.dir('plain')
        cmd = [exe, c.prop, out, 8, c.seed + 7, 1500 if big else 120]
        c.drive(cmd, out, need=['reject', 'obs', 'q'])
        c.judge('MinHashTrace', out, cmd)


# ---------------------------------------------------------------- signatures and measures
@check('C08', 'C09', 'C10', 'C11', 'C22', 'C23', 'C24')
def signatures(c):
    exe = c.build('sig')
    big = c.thorough
    cfgs = dict(C22=[('EstModel', 'MC_EstMin5.cfg' if big else 'MC_EstMin.cfg')], C24=[('EstModel', 'MC_EstSim7.cfg' if big else 'MC_EstSim.cfg')], C23=[], C08=[('SigModel', 'MC_SigMin.cfg')], C09=[], C10=[('SigModel', 'MC_SigParams.cfg')],
                C11=[('SigModel', 'MC_SigVote.cfg'), ('SigModel', 'MC_SigCent.cfg'),
                     ('SigModel', 'MC_SigVoteTie.cfg', dict(expect='Inv', note='control: ties set the bit')),
                     ('SigModel', 'MC_SigCentTie.cfg', dict(expect='Inv', note='control: ties set the bit'))])[c.prop]
    if cfgs:
        c.models(*cfgs)
    script = None
    if c.prop in ('C08', 'C11'):
        script = c.behaviours('SigGen', 'Gen_SigDoc6.cfg' if big else 'Gen_SigDoc.cfg')
    if c.prop == 'C09':
        script = c.behaviours('SigGen', 'Gen_SigJac4.cfg' if big else 'Gen_SigJac.cfg', limit=20000)
        c.behaviours('SigGen', 'Gen_SigMeasure6.cfg' if big else 'Gen_SigMeasure.cfg', dst=script)
    count = dict(C22=150, C24=60, C23=200, C08=200, C09=400, C10=1500, C11=150)[c.prop]
    for i in range(12 if big else 1):
        out = c.dir('t%d' % i)
        cmd = [exe, c.prop, out, 8, c.seed + 1000 * i, count] + ([script] if script and i == 0 else [])
        c.drive(cmd, out, need=dict(C22=['est'], C24=['bits', 'simest'], C23=['family', 'simfamily'], C08=['minsig'], C09=['measure', 'jac', 'hsim'], C10=['params'], C11=['simsig', 'simcent', 'ham'])[c.prop])
        if c.prop == 'C10':
            params.annotate(out)
        twin = None
        if c.prop in ('C08', 'C11'):
            twin = c.dir('w%d' % i)
            c.drive([x if x != out else twin for x in cmd], twin)
        c.judge('SigTrace', out, cmd, twin=twin)


# ---------------------------------------------------------------- SimHash index
@check('C12')
def simhash(c):
    exe = c.build('sh')
    big = c.thorough
    ms = [('SimHashIndex', 'MC_SimHashA.cfg'),
          ('SimHashIndex', 'MC_SimHashSlack.cfg', dict(expect='QueryExact', note='control: distance equal to the number of blocks')),
          ('SimHashIndex', 'MC_SimHashStrict.cfg', dict(expect='QueryExact', note='control: strict comparison'))]
    if big:
        ms += [('SimHashIndex', 'MC_SimHash%s.cfg' % x) for x in 'BCD']
    c.models(*ms)
    script = c.behaviours('SimHashGen', 'Gen_SimHash5.cfg' if big else 'Gen_SimHash4.cfg')
    for i in range(12 if big else 1):
        out = c.dir('t%d' % i)
        cmd = [exe, 'x', out, 8, c.seed + 1000 * i, 400] + ([script] if i == 0 else [])
        c.drive(cmd, out)
        c.judge('SimHashTrace', out, cmd)


# ---------------------------------------------------------------- several indexes, several threads
@check('C25')
def share(c):
    exe = c.build('share')
    big = c.thorough
    c.models(('Share', 'MC_SharePrivate.cfg'), ('Share', 'MC_ShareMemo.cfg'),
             ('Share', 'MC_ShareScratch.cfg', dict(expect='Alone', note='control: one buffer per index')),
             ('Share', 'MC_ShareProcess.cfg', dict(expect='Alone', note='control: answers remembered for the whole process')),
             ('Share', 'MC_ShareStale.cfg', dict(expect='Alone', note='control: remembered answers survive a removal')),
             ('Share', 'MC_ShareSplit.cfg', dict(expect='Alone', note='control: key and value remembered in two steps')),
             ('Share', 'MC_ShareTorn.cfg', dict(expect='Alone', note='control: key and value recalled in two steps')))
    if big:
        c.model('Share', 'MC_ShareMemo2.cfg', note='larger scope')
    script = c.behaviours('ShareGen', 'Gen_Share4.cfg' if big else 'Gen_Share3.cfg', limit=20000 if big else 1200)
    for i in range(10 if big else 1):
        for kind, mod, n in (('min', 'MinHashTrace', 150), ('sim', 'SimHashTrace', 80), ('str', 'StringTrace', 60)):
            out = c.dir('%s%d' % (kind, i))
            cmd = [exe, kind, out, 8, c.seed + 1000 * i, n] + ([script] if i == 0 and kind == 'min' else [])
            c.drive(cmd, out, need=dict(min=['insert', 'bulk', 'q', 'bq', 'bulksig', 'remove', 'obs'], sim=['insert', 'bulk', 'q', 'bq', 'size'], str=['insert', 'load', 'q'])[kind])
            c.judge(mod, out, cmd)
    for kind, mod, k in (('min', 'MinHashTrace', 3), ('sim', 'SimHashTrace', 2)):
        out = c.dir('miri_' + kind)
        if c.miri(kind, range(4 * k) if big else range(k), 200 if big else 12, out):
            c.judge(mod, out, ['miri', kind])


# ---------------------------------------------------------------- text
@check('C13', 'C14')
def text(c):
    exe = c.build('text')
    big = c.thorough
    if c.prop == 'C13':
        c.models(('TextModel', 'MC_TextShingle.cfg'), ('TextModel', 'MC_TextEarly.cfg', dict(expect='ShinglesExact', note='control: the iterator ends when the longest shingle does not fit')))
        script = c.behaviours('SigGen', 'Gen_TextShingle6.cfg' if big else 'Gen_TextShingle.cfg')
    else:
        c.models(('TextModel', 'MC_TextWord.cfg'))
        script = c.behaviours('SigGen', 'Gen_TextWord5.cfg' if big else 'Gen_TextWord.cfg')
    for i in range(12 if big else 1):
        out = c.dir('t%d' % i)
        cmd = [exe, c.prop, out, 8, c.seed + 1000 * i, 250] + ([script] if i == 0 else [])
        c.drive(cmd, out, need=dict(C13=['shingles', 'tokens'], C14=['words'])[c.prop])
        c.judge('TextTrace', out, cmd)


# ---------------------------------------------------------------- clustering
@check('C15')
def cluster_serial(c):
    exe = c.build('cs')
    big = c.thorough
    c.models(('ClusterSerial', 'MC_ClusterSerial.cfg'), ('ClusterSerial', 'MC_ClusterSerial4.cfg'),
             ('ClusterSerial', 'MC_ClusterSerialStrict.cfg', dict(expect='Left', note='control: more than the minimum required')),
             ('ClusterSerial', 'MC_ClusterSerialIds.cfg', dict(expect='Guarantees', note='control: ids restart with every run')))
    script = c.behaviours('ClusterGen', 'Gen_Cluster4.cfg', limit=None if big else 1500)
    for i in range(12 if big else 1):
        out = c.dir('t%d' % i)
        cmd = [exe, 'x', out, 8, c.seed + 1000 * i, 600] + ([script] if i == 0 else [])
        c.drive(cmd, out, need=['serial'])
        c.judge('ClusterTrace', out, cmd)


@check('C16', 'C17')
def cluster_par(c):
    exe = c.build('cl', hooks=True)
    big = c.thorough
    M = 'MCClusterPar'
    ms = [(M, 'MC_ClPar1.cfg'), (M, 'MC_ClPar2.cfg'),
          (M, 'MC_ClParSame.cfg', dict(expect='Progress', note='control: committed and rolled back are the same state')),
          (M, 'MC_ClParFree.cfg', dict(expect='NoUseAfterFree', note='control: a given up cluster is freed at once')),
          (M, 'MC_ClParTake.cfg', dict(expect='Owned', note='control: a won point is not reassigned'))]
    if c.prop == 'C16':     # the orderings of the atomic operations
        ms += [('ClusterMem', 'MC_ClMem.cfg'),
               ('ClusterMem', 'MC_ClMemPub.cfg', dict(expect='NoRace', note='control: a cluster is published without release')),
               ('ClusterMem', 'MC_ClMemRead.cfg', dict(expect='NoRace', note='control: a cluster is looked into without acquire'))]
    if big:
        ms += [(M, 'MC_ClPar2any.cfg')]
    c.models(*ms)
    if big:
        for x in ('MC_ClPar24.cfg', 'MC_ClPar3.cfg'):
            c.model(M, x, xmx='20g', timeout=3000)
        if c.prop == 'C16':
            c.model('ClusterMem', 'MC_ClMem3.cfg', xmx='20g', timeout=3000)
    script = c.behaviours('ClusterGen', 'Gen_Cluster4.cfg', limit=400 if not big else 3000)
    for x, k in (('Two3', 500), ('Three3', 500), ('Two4', 500), ('Three4', 300), ('Four4', 300)):
        c.behaviours('ClusterParGen', 'Sim_ClPar%s.cfg' % x, simulate=k * (8 if big else 1), depth=400, dst=script)
    for i in range(12 if big else 1):
        out = c.dir('t%d' % i)
        cmd = [exe, c.prop, out, 8, c.seed + 1000 * i, 2000] + ([script] if i == 0 else [])
        c.drive(cmd, out, need=['par'])
        c.judge('ClusterTrace', out, cmd)
    out = c.dir('miri')
    if c.miri('cluster', range(21) if big else range(7), 400 if big else 40, out):
        c.judge('ClusterTrace', out, ['miri', 'cluster'])


# ---------------------------------------------------------------- string index
@check('C18')
def string_index(c):
    exe = c.build('st')
    big = c.thorough
    c.models(('StringUtf', 'MC_StringUtf.cfg'), ('StringIndex', 'MC_String.cfg'), ('StringIndex', 'MC_StringBase.cfg', dict(expect='Kept', note='control: a batch starts at the last identity used')))
    script = c.behaviours('StringGen', 'Gen_StringBig.cfg' if big else 'Gen_String.cfg', limit=None if big else 9000)
    for i in range(12 if big else 1):
        out = c.dir('t%d' % i)
        cmd = [exe, 'x', out, 8, c.seed + 1000 * i, 500] + ([script] if i == 0 else [])
        c.drive(cmd, out, need=['insert', 'load', 'bad', 'q'], env=dict(CONFORM_OP_LIMIT_S='20'))
        c.judge('StringTrace', out, cmd)


# ---------------------------------------------------------------- Python
@check('C19', 'C20', 'C21')
def python_api(c):
    pkg = c.build_py()
    big = c.thorough
    drv = [sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'py', 'drive.py'), pkg]
    if c.prop == 'C21':
        c.models(('ConfModel', 'MC_Conf.cfg'), ('ConfModel', 'MC_ConfBoth.cfg', dict(expect='Outcome', note='control: limits combined with and')))
        script = c.behaviours('ConfGen', 'Gen_ConfMin.cfg', limit=None if big else 30000)
        c.behaviours('ConfGen', 'Gen_ConfSim.cfg', dst=script)
        out = c.dir('t0')
        cmd = drv + ['conf', out, 8, c.seed, 0, script]
        c.drive(cmd, out, need=['conf'])
        c.judge('ConfTrace', out, cmd)
        return
    kind, mod = ('min', 'PyMinTrace') if c.prop == 'C19' else ('sim', 'PySimTrace')
    K = kind.capitalize()
    c.models(('PyModel', 'MC_PySmall.cfg'), ('PyModel', 'MC_PyBig.cfg' if big else 'MC_PyLarge.cfg'),
             ('PyModel', 'MC_PyNoFold.cfg', dict(expect='Refines', note='control: large batches are not folded')),
             ('PyModel', 'MC_PySelect.cfg', dict(expect='Refines', note='control: wrong tokenizer chosen from the range')))
    script = c.behaviours('PyGen', 'Gen_Py%s%s.cfg' % (K, '3' if big else ''), limit=20000 if big else 2500)
    for i in range(8 if big else 1):
        out = c.dir('t%d' % i)
        cmd = drv + [kind, out, 8, c.seed + 1000 * i, 500] + ([script] if i == 0 else [])
        c.drive(cmd, out, need=['insert', 'bulk', 'q', 'bq'] + (['remove', 'size'] if kind == 'min' else []))
        c.judge(mod, out, cmd)


if __name__ == '__main__':
    sys.exit(main(CHECKS))
