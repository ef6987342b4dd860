HOOKS=["14a6240","5878531","2f00f12","5042668"]
MAP="Seeded search, not exhaustive. The real map code runs; its atomics, fences and mutex go through a release/acquire view model in which loads may return stale values and which detects unordered accesses. Trusts that model, the scheduler, and that the sampled workloads (up to 4 readers, up to 4 stale versions per load) show the interleavings that matter."
NOTE={
"C01":MAP,
"C02":MAP,
"C03":MAP+" Liveness is judged as completion within a bounded number of fair steps.",
}
TREE="Seeded search, not exhaustive. The real builder, tree, layers and queries run on a simulated thread pool, channel, locks and point cloud, all interleaved by one seeded scheduler (sequentially consistent). Trusts the stand-ins for rayon-core and crossbeam-channel, the scheduler, and that data sets of mostly up to 40 (sometimes several hundred) points in 1-4 effective dimensions show what matters."
for i in ["C04","C05","C06","C07","C08","C09","C10","C11","C20"]: NOTE[i]=TREE
FILE="Seeded search, not exhaustive. The real save, load, protobuf and std::fs code runs; C library file calls under /sim/ act on an in-memory disk that separates synced from unsynced data and names, and the scheduler decides failing calls, short transfers, interruptions, full disk, the crash point and what unsynced data survives it. Trusts that disk model (name changes survive a power failure as a prefix, unsynced writes as any subset, torn anywhere) and the scheduler. Trees of mostly up to 40 points."
for i in ["C12","C13","C14"]: NOTE[i]=FILE
SERVE="Seeded search, not exhaustive. The real service, parsers, trackers, hyper and tokio code run; sockets, listener, the task run queue, data source and clients are simulated and interleaved by one seeded scheduler. HTTP/1 only; trusts hyper's and tokio's own guarantees below the poll level, and the harness's expected answers (computed by direct queries of the same tree, which C07-C09 judge)."
for i in ["C15","C16","C17","C18"]: NOTE[i]=SERVE
for i in ["C19","C24","C25","C26"]: NOTE[i]=TREE
NOTE["C21"]="Seeded search, not exhaustive. The real loaders, data and label sources, csv, gzip, glob and yaml code run; C library file, directory and mapping calls under /sim/ act on an in-memory disk whose failures, short transfers, listing order and interleaving of concurrent loaders the scheduler decides. A mapping is a private copy with guard pages on either side; trusts that stand-in and the oracle, which generates the files from the values it expects back."
NA={
"C22":"Pure functions of their arguments: no schedule, time, I/O or fault can influence them, so simulating schedules and faults decides nothing about them.",
"C23":"Pure closed-form functions of their parameters: no schedule, time, I/O or fault can influence them.",
}
