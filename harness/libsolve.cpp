// The C++ library on an instance read from stdin (plain text of this harness, no parser of the library), result as JSON.
#include "vcft.hpp"
using namespace vc;
static double rd() { char b[256]; if (std::scanf("%255s", b) != 1) std::exit(3); return std::strtod(b, nullptr); }
int main() {
    v::PInst p;
    p.nrows = int(rd());
    int n = int(rd());
    for (int j = 0; j < n; ++j) {
        p.costs.push_back(rd());
        std::vector<int> c;
        for (int k = int(rd()); k > 0; --k) c.push_back(int(rd()));
        p.cols.push_back(c);
    }
    Solution warm;
    for (int k = int(rd()); k > 0; --k) { int j = int(rd()); warm.idxs.push_back(as_cidx(j)); }
    warm.cost = 0.0_F;
    for (auto j : warm.idxs) warm.cost += as_real(p.costs[size_t(native_cast(j))]);
    Environment env;
    env.verbose = 0;
    char k[256], x[256];
    while (std::scanf("%255s %255s", k, x) == 2) {
        std::string s = k;
        if (s == "seed") { env.seed = std::strtoull(x, nullptr, 10); env.rnd = prng_t(env.seed); }
        else if (s == "heur_iters") env.heur_iters = std::strtoull(x, nullptr, 10);
        else {
            float f = float(std::strtod(x, nullptr));
            if (s == "epsilon") env.epsilon = f;
            else if (s == "beta") env.beta = f;
            else if (s == "abs") env.abs_subgrad_exit = f;
            else if (s == "rel") env.rel_subgrad_exit = f;
            else if (s == "alpha") env.alpha = f;
            else if (s == "min_fixing") env.min_fixing = f;
            else std::exit(4);
        }
    }
    auto inst = mk(p);
    auto r    = cft::run(env, inst, warm);
    std::printf("{\"idxs\":[");
    for (size_t t = 0; t < r.sol.idxs.size(); ++t) std::printf("%s%d", t ? "," : "", int(r.sol.idxs[t]));
    std::printf("],\"cost\":%.17g,\"lb\":%.17g,\"mults\":[", double(r.sol.cost), double(r.dual.lb));
    for (size_t t = 0; t < r.dual.mults.size(); ++t) std::printf("%s%.17g", t ? "," : "", double(r.dual.mults[t]));
    std::printf("]}\n");
}
