#!/usr/bin/env python3
"""Proposes the table of C15 from what the analyzer sees in the tree (VSA_FLOWS_OUT), for a reader to check.

The table itself, analyzer/checks/flows.json, is committed and fixed: no run of a check rewrites it.
"""
import json, re, sys
full = json.load(open(sys.argv[1]))
d = full['Flows']
out = {}
NOCALL = ('net/url', 'time.', 'strconv.', 'sort.', 'strings.', 'encoding/', 'sync', '(*sync', '(error)', 'path', 'os.', 'io', 'math',
          'reflect', 'bytes', 'context', '(*time', '(time', 'rankdb.NewManager', 'blobstore.Store).', 'api/client', 'backup.backupList',
          'http', '(*net/http', 'sessi', 'net.Listen', '(net/http')
def call(s):
    m = re.match(r'call (.*)#(\d+)( negated)?$', s)
    if not m: return False
    if 'backup.ID)' in s: return True
    n, i = m.group(1), int(m.group(2))
    if n.startswith(NOCALL) or i == 0 and n.startswith('('): return False
    return not re.search(r'\(\*?rankdb\.(Elements?|Segments?|SegmentsID)\)|\(\*rankdb\.List\)\.[a-z]|\(\*rankdb\.Lists\)\.Exists', n)
def pick(k, v, call=call, sets=None):
    l = [s for s in v if call(s)]
    for s in v:
        if s.startswith('set ') and not re.search(r'Neighbors|IndexElement\.|Resultlist|api/morph\.|PreviousRank|Listsresult\.Lists$|Listopresult|Multielement\.Found|LazyS', s):
            if re.match(r'set [\w./-]*\.[A-Z]\w*\.[A-Z]\w*( negated)?$', s) and (sets is None or re.search(sets, s)): l.append(s)
    return l
for k, v in d.items():
    v = v or []
    l = []
    f = k.rsplit('.', 1)[-1]
    if k.startswith('api/app.Rankdb') or re.match(r'api/app\.(ListQL|ListPayloadQL|MultiElement|MultiListBackup|BackupDestination|RankList)\.', k): continue
    if k.startswith('api/app.JWT') or k.startswith('backup.RestoreInfo.DB') or k.startswith('backup.Request') and f != 'Lists': continue
    if k in ('config.AWS', 'config.Aerospike', 'config.Badger', 'config.BoltDB', 'config.LazySaver', 'config.StorageRetry', 'config.NewRelic') or k.endswith('.Duration'): continue
    if k.endswith('Context.Payload'): v = [s for s in v if call(s) and '(*rankdb.List)' in s]
    if k.endswith('Payload.Destination') or k.endswith('BackupMultilistContext.Payload.Lists'): continue
    if k.startswith('.List.') and not [s for s in v if 'RankdbRanklist' in s]: continue
    if k.startswith(('.List.', '.Element.', '.RankedElement.', '.ListStats.', '.PageInfo.', 'backup.Status.', 'backup.RestoreResult.')):
        # an answer: the field of the same meaning
        same = {'Updated': 'UpdatedAt', 'Top': 'TopElement', 'Bottom': 'BottomElement', 'CachePct': 'CachePercent', 'Before': 'ListsBefore', 'After': 'ListsAfter',
                'Failed': 'Errors'}.get(f, f)
        if k == '.RankedElement.Before': same = 'PreviousRank'
        l = [s for s in v if re.match(r'set api/app\.[\w]+\.' + same + '$', s)]
        if k == '.List.ID': l.append('set api/app.RankdbElement.ListID')
        if k.startswith(('.RankedElement.Above', '.RankedElement.Below')): l = ['set struct.' + f]
        if k == '.ListStats.Segments': l.append('set api/app.RankdbRanklistFull.AvgSegmentElements')
        if k == '.ListStats.Elements': l.append('set api/app.RankdbRanklistFull.AvgSegmentElements')
        if k in ('.Element.TieBreaker', '.Element.Payload', '.Element.Score', '.Element.ID'): l = [s for s in l if 'FullUpdate.P' not in s or 'Payload' in s]
    elif k.startswith('api/morph.'):
        l = [s for s in v if re.match(r'set (api/app\.\w+\.(ListID|From\w+)|struct\.\w+)$', s)]
        st = [s for s in l if 'struct' in s]
        l = st if len(st) == 1 else [s for s in l if 'struct' not in s]
    elif k.startswith('api/app.Element.'):
        l = [s for s in v if s == 'set ' + k[len('api/app'):]]
    elif k.startswith('api/app.'):
        l = pick(k, v, sets='backup')
    elif k.startswith('.listOptions'):
        l = pick(k, v) + [s for s in v if re.match(r'set \.(List|Segments)\.cache', s) ]
        if f == 'clone': l = []
    elif k.startswith(('.ListOption', 'blobstore.RetryOpt', 'blobstore.LazySaveOption')):
        l = [s for s in v if s.startswith('set ')]
    elif k.startswith('blobstore.'):
        l = [s for s in v if re.match(r'call (blobstore\.Store\)\.\w+#1|time\.NewTimer#0|\(\*sync.WaitGroup\)\.Add#1|context.WithTimeout#1|\(.*Timer\)\.Reset#1)', s)]
    elif k.startswith('backup.'):
        l = [s for s in v if call(s) or s.startswith('set backup.RestoreResult') and not 'RestoreInfo' in k] + [s for s in v if s in ('call backup.Loader).Load#0',)]
    elif k.startswith('api.NewRelic'):
        l = [s for s in v if re.search(r'NewConfig#|set .*Config\.License$|struct|'  + ('Exclude' if 'Excl' in k else '$^') + '', s)]
    elif k.startswith('config.'):
        l = [s for s in v if call(s) and not re.search(r'StartListSplitter|StoreWithSet#0|session|boltstore\.New#0|NewRetryStore#0|NewLazySaver#0', s) or s.startswith('set net/http')
             or s.startswith('set github.com/etcd') or s == 'set .Manager.BackupEvery' or s.endswith('DisableTimestamp negated')
             or s == 'call rankdb.NewManager#1' and 'MasterSet' in k or s == 'call net.Listen#1' or s == 'set api/app.RankdbSysinfo.ElementCache'
             or 'bolt' in k.lower() and s == 'call blobstore/boltstore.NewBoltStore#0' or s in ('call blobstore/aerostore.New#0',) and 'Namespace' in k]
        if 'NoSync' in k and 'Badger' in k: l = ['call (github.com/dgraph-io/badger.Options).WithSyncWrites#1 negated']
        if 'ColourLogs' in k: l = []
        if 'Badger.Path' in k: l = ['call github.com/dgraph-io/badger.DefaultOptions#0']
    # what is switched
    on = {'ErrorsOnly': 'if true: set api/app.RankdbResultlist.Success', 'CreateListsContext.Replace': 'if true: call (*api/app.CreateListsContext).Conflict negated',
          'CreateMultilistContext.Results': 'if true: call (*rankdb.List).GetElements', '.Repair': 'if true: call (*rankdb.List).Repair',
          'VerifyMultilistContext.Elements': 'if true: call (*rankdb.List).VerifyElements', 'RestoreInfo.Replace': 'if true: call (*rankdb.Manager).DeleteList',
          'config.LazySaver.Enabled': 'if true: call blobstore.NewLazySaver', 'config.StorageRetry.Enabled': 'if true: call blobstore.NewRetryStore',
          'config.AWS.Enabled': 'if true: call github.com/aws/aws-sdk-go/aws/session.NewSession', 'config.LogInfo': 'if true: call log.NullInfo negated',
          'config.Debug': 'if true: set net/http.Server.Handler'}
    for a, b in on.items():
        if k.endswith(a) and b in v: l.append(b)
    if not l: l = [s for s in v if s == 'decides']
    if l: out[k] = sorted(set(l))
out['api/app.DeleteBackupContext.BackupID'] = ['call (backup.ID).Cancel#0']
out['api.NewRelicOptions.TxTracerThreshold'] = ['set struct.Threshold']
json.dump({'Flows': out, 'Answers': {k: l for k, l in full['Answers'].items() if k.startswith('api/app.Rankdb') and not k.endswith(('Resultlist', 'Multielement', 'OperationSuccess', 'Sysinfo'))}, 'From': full['From']}, sys.stdout, indent=1)
print()
