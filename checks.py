HARNESSES = {
  'storage_share': dict(src=['storage_share.cpp'], features=['kokkos']),
}
CHECKS = {'P02': dict(runs=[('storage_share', '')])}
def one(pid, src, **kw):
    """a harness file instantiated for a single property (VP selects the scenarios that are compiled)"""
    n = int(pid[1:]); HARNESSES[pid] = dict(src=[src], flags=['-DVP=%d' % n], **kw); CHECKS[pid] = dict(runs=[(pid, pid + '.')])
for i in (1, 3, 4, 5): one('P%02d' % i, 'grid_core.cpp', features=['kokkos'])
for i in (6, 7, 8, 9, 10): one('P%02d' % i, 'grid_views.cpp')
for i in range(12, 20): one('P%02d' % i, 'subdivision.cpp', features=['fakempi'], lib='all')
for i in range(12, 20): HARNESSES['P%02d' % i]['src'].append('fakempi.cpp')
for i in (20, 26): one('P%02d' % i, 'deck_expr.cpp', lib='all')
for i in (21, 22, 23): one("P%02d" % i, "deck_text.cpp", lib="all")
for i in (24, 25, 27, 28, 29): one("P%02d" % i, "blocks.cpp", lib="all")
one('P30', 'diagnostics.cpp', lib='all')
one('P11', 'fill.cpp', lib='all')

one('P31', 'hdf.cpp', features=['fakempi', 'fakehdf5', 'hdfparallel'], lib='all'); HARNESSES['P31']['src'] += ['fakempi.cpp', 'fakeh5.cpp']
one('P32', 'textout.cpp', lib='all')
one('P33', 'textout.cpp', features=['kokkos'])
ASSUMPTIONS = {'*': []}
one('P34', 'util.cpp', lib='all')
