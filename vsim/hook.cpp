// The simulator's side of the guarded hooks in /repo (compiled only into the simulation build).
extern "C" {
typedef int (*cshogi_sim_fn)(int site);
cshogi_sim_fn cshogi_sim_callback = nullptr;
__attribute__((visibility("default"))) void cshogi_sim_set(cshogi_sim_fn f) { cshogi_sim_callback = f; }
__attribute__((visibility("default"))) int cshogi_sim_point(int site) {
    return cshogi_sim_callback ? cshogi_sim_callback(site) : 0;
}
}
