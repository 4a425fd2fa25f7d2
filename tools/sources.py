# The source files of the pinned tree.  A source file that is not among them was split off from one of them;
# the binaries that use its directory link it too.
KNOWN = {
    'drobot': 'drobot.cc main.cc test.cc'.split(),
    'graphics': 'image.cc scene.cc test.cc ui.cc'.split(),
    'gridnav': '2poly.cc draw.cc gridmap.cc gridnav.cc main_gridnav.cc main_scenario.cc mkseedinst.cc ppm2grid.cc randinst.cc scenario.cc scenario2rdb.cc watch.cc'.split(),
    'pancake': 'main.cc pancake.cc'.split(),
    'plat2d': '2poly.cc body.cc draw.cc lvl.cc main.cc plat2d.cc player.cc tile.cc watch.cc'.split(),
    'rdb': 'addattrs.cc dfcmplt.cc pathattrs.cc pathfor.cc rdb.cc test.cc test_rdb.cc withattrs.cc'.split(),
    'search': 'search.cc test.cc test_closedlist.cc'.split(),
    'search/anyprof': 'bestwt.cc mkprof.cc profile.cc sptcounts.cc sptpolicy.cc'.split(),
    'search/learnh': 'hlms.cc learnsig.cc leastsquares.cc'.split(),
    'segments': 'main.cc mkinst.cc segments.cc watch.cc'.split(),
    'structs': 'stn.cc test.cc test_binheap.cc test_htable.cc test_intpq.cc test_kdtree.cc test_stn.cc'.split(),
    'tiles': 'generator.cc main_mdist.cc mdist.cc pdb.cc tiles.cc'.split(),
    'traffic': 'gridmap.cc main_traffic.cc randinst.cc traffic.cc watch.cc'.split(),
    'utils': 'bench_ops.cc datafile.cc encode.cc fatal.cc fs.cc geom2d.cc hash.c math.cc mem.cc rand.cc rank.cc str.cc test.cc test_encode.cc test_fs.cc test_geom.cc test_misc.cc testing.cc time.cc'.split(),
    'vacuum': 'main.cc main_cs730.cc vacuum.cc'.split(),
    'visnav': 'draw.cc grid2poly.cc inst.cc main.cc mkgraph.cc pbm2poly.cc polymap.cc rand.cc visgraph.cc visnav.cc'.split(),
}
