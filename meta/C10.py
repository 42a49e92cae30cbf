P = dict(id="C10", title="The context tree finds or creates exactly the requested path, once",
 statement="Getting a child or path with given attributes and values below a node yields a path that holds exactly those values below that node; a path that exists is found again (same node) and never created twice, missing nodes are created once. Removing or replacing the first, or replacing all, occurrences of an attribute in a path yields the path with exactly those changes. Every node keeps its id, value and parent forever and can be found by its id. When node blocks or pool memory run out the operation yields null - never another path, and never a write outside a block.",
 over=["inputs", "histories", "faults"], qtext="any attributes and values over every shape of three existing nodes, any block fill level, node block and memory exhaustion; natively random histories with short and over-long paths and small limits",
 why="Tests build a few fixed paths; full blocks, paths longer than a block and exhaustion are not reached.",
 files=["src/caliper/MetadataTree.h", "src/caliper/MetadataTree.cpp", "include/caliper/common/Node.h"],
 state=[("node blocks", "fixed-size blocks of nodes, addressed by id", "src/caliper/MetadataTree.h")],
 mechanism=[("find or create", "MetadataTree::get_child, get_path, create_path, create_child"), ("path editing", "remove_first_in_path, replace_first_in_path, replace_all_in_path"), ("block allocation", "have_free_nodeblock")],
 observe=["returned node, its parents, node(id)"],
 note="Modular bounded contracts (path operations against the contracts of find-or-create, get_path against create_path, all against the value layer's contracts) over symbolic trees of three nodes; native random histories through the public interface on the real configuration.")
