P = dict(id="C11", title="Pool allocations are aligned, disjoint, in bounds, zeroed and stay valid",
 statement="Every block handed out by a memory pool has the requested size and alignment, lies inside memory owned by the pool, is zero-filled, and overlaps no other block; blocks keep their address and contents for the life of the pool, also when another pool is merged into it. A request is refused (null) only when it does not fit and the pool may not grow, and a refused request changes nothing.",
 over=["inputs", "histories"], qtext="any chunk address, size and fill level, any request size and power-of-two alignment; natively random histories over two merged pools",
 why="Tests allocate a few small blocks; requests at chunk boundaries with large alignment are not sampled.",
 files=["src/caliper/MemoryPool.h", "src/caliper/MemoryPool.cpp"],
 state=[("chunks", "memory chunks with a fill mark; the last one is active", "src/caliper/MemoryPool.cpp")],
 mechanism=[("bump allocation", "MemoryPoolImpl::allocate"), ("growth", "MemoryPoolImpl::expand"), ("merge", "MemoryPoolImpl::merge")],
 observe=["pointer returned by allocate / aligned_alloc"],
 note="allocate is proved for all inputs against the contract of expand (a new chunk at least as large as asked for, 16-byte aligned by operator new[]); zero-filling, growth and merging by native random histories under ASan.")
