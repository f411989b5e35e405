// The benchmark instances shipped with the repository, read by code of our own (no cft header), and pieces of them.
#ifndef VERIF_VREAL_HPP
#define VERIF_VREAL_HPP
#include <dirent.h>
#include <fstream>
#include <memory>

#include "vcommon.hpp"

namespace v {
struct Real {
    PInst            p;
    std::string      path, name, parser;
    std::vector<int> start;  // initial solution stored in the file
    double           opt = std::numeric_limits<double>::quiet_NaN();
};

inline std::vector<std::pair<std::string, std::string>> real_files(std::string const& dir) {
    std::vector<std::pair<std::string, std::string>> out;
    for (auto kind : {"scp", "rail", "cvrp", "mps"}) {
        std::string d = dir + "/" + kind;
        if (DIR* h = opendir(d.c_str())) {
            std::vector<std::string> names;
            while (dirent* e = readdir(h)) {
                std::string n = e->d_name;
                if (n[0] != '.' && n.find("best_results") == std::string::npos) names.push_back(n);
            }
            closedir(h);
            std::sort(names.begin(), names.end());
            for (auto& n : names) out.emplace_back(kind, d + "/" + n);
        }
    }
    return out;
}

// Proven optima of the OR-Library instances (Beasley).
inline double known_opt(std::string const& n) {
    static std::map<std::string, double> const t = {
        {"scp41", 429}, {"scp42", 512}, {"scp43", 516}, {"scp44", 494}, {"scp45", 512}, {"scp46", 560}, {"scp47", 430}, {"scp48", 492}, {"scp49", 641}, {"scp410", 514},
        {"scp51", 253}, {"scp52", 302}, {"scp53", 226}, {"scp54", 242}, {"scp55", 211}, {"scp56", 213}, {"scp57", 293}, {"scp58", 288}, {"scp59", 279}, {"scp510", 265},
        {"scp61", 138}, {"scp62", 146}, {"scp63", 145}, {"scp64", 131}, {"scp65", 161}, {"scpa1", 253}, {"scpa2", 252}, {"scpa3", 232}, {"scpa4", 234}, {"scpa5", 236},
        {"scpb1", 69}, {"scpb2", 76}, {"scpb3", 80}, {"scpb4", 79}, {"scpb5", 72}, {"scpc1", 227}, {"scpc2", 219}, {"scpc3", 243}, {"scpc4", 219}, {"scpc5", 215},
        {"scpd1", 60}, {"scpd2", 66}, {"scpd3", 72}, {"scpd4", 62}, {"scpd5", 61}};
    auto it = t.find(n.substr(0, n.find('.')));
    return it == t.end() ? std::numeric_limits<double>::quiet_NaN() : it->second;
}

inline Real read_real(std::string const& kind, std::string const& path) {
    Real x;
    x.path   = path;
    x.name   = path.substr(path.rfind('/') + 1);
    x.parser = kind == "scp" ? "SCP" : kind == "rail" ? "RAIL" : kind == "cvrp" ? "CVRP" : "MPS";
    std::ifstream f(path);
    std::string   line;
    PInst&        p = x.p;
    p.family        = "real-" + x.name;
    long n = 0;
    auto uniq = [](std::vector<int>& c) {  // repeated entries count once
        std::set<int>    s;
        std::vector<int> o;
        for (int i : c) if (s.insert(i).second) o.push_back(i);
        c.swap(o);
    };
    if (kind == "mps") {
        std::map<std::string, int> rows, cols;
        std::string sec, obj;
        while (std::getline(f, line)) {
            if (line.empty() || line[0] == '*') continue;
            std::istringstream       is(line);
            std::vector<std::string> t;
            for (std::string w; is >> w;) t.push_back(w);
            if (t.empty()) continue;
            if (line[0] != ' ') { sec = t[0]; continue; }
            if (sec == "ROWS") {
                if (t[0] == "N") obj = t[1];
                else { int id = int(rows.size()); rows[t[1]] = id; }
            } else if (sec == "COLUMNS") {
                if (line.find("'MARKER'") != std::string::npos) continue;
                if (!cols.count(t[0])) { int id = int(cols.size()); cols[t[0]] = id; p.cols.emplace_back(); p.costs.push_back(0.0); }
                size_t j = size_t(cols[t[0]]);
                for (size_t a = 1; a + 1 < t.size(); a += 2) {
                    if (t[a] == obj) p.costs[j] = fl(std::strtod(t[a + 1].c_str(), nullptr));
                    else p.cols[j].push_back(rows.at(t[a]));
                }
            }
        }
        p.nrows = int(rows.size());
    } else {
        f >> p.nrows >> n;
        p.cols.resize(size_t(n));
        p.costs.resize(size_t(n));
        if (kind == "scp") {
            for (auto& c : p.costs) { f >> c; c = fl(c); }
            for (int i = 0; i < p.nrows; ++i) {
                long k = 0, j = 0;
                f >> k;
                for (; k > 0; --k) { f >> j; p.cols.at(size_t(j - 1)).push_back(i); }
            }
        } else {
            std::getline(f, line);
            for (long j = 0; j < n; ++j) {
                std::getline(f, line);
                char const* s = line.c_str();
                char*       e = nullptr;
                p.costs[size_t(j)] = fl(std::strtod(s, &e));
                s = e;
                std::strtod(s, &e);  // number of rows, or cost in the solution
                s = e;
                for (;;) {
                    long i = std::strtol(s, &e, 10);
                    if (e == s) break;
                    p.cols[size_t(j)].push_back(int(kind == "rail" ? i - 1 : i));
                    s = e;
                }
            }
            if (kind == "cvrp") for (long j; f >> j;) x.start.push_back(int(j));
        }
    }
    double tot = 0;
    for (double c : p.costs) { tot += c; if (c != std::floor(c)) p.intcost = false; }
    (void)tot;
    for (auto& c : p.cols) uniq(c);
    x.opt = known_opt(x.name);
    return x;
}

inline Real const& real_at(std::string const& dir, size_t idx, bool light) {
    static std::map<size_t, std::unique_ptr<Real>> cache;
    static std::vector<std::pair<std::string, std::string>> files = real_files(dir);
    if (files.empty()) throw std::runtime_error("no benchmark instance in " + dir);
    size_t i = idx % files.size();
    if (light)  // files that take a second to read are kept to one
        while (files[i].first == "cvrp" && i + 1 < files.size()) ++i;
    auto& c = cache[i];
    if (!c) c.reset(new Real(read_real(files[i].first, files[i].second)));
    return *c;
}
inline size_t real_count(std::string const& dir) { return real_files(dir).size(); }

// A piece of a benchmark instance: some of its rows, some of the columns that touch them.
inline PInst real_piece(PInst const& w, Rng& r, int maxrows, int maxcols) {
    PInst p;
    p.family  = w.family + "/piece";
    p.intcost = w.intcost;
    int nr = int(r.range(2, std::min(maxrows, w.nrows)));
    std::vector<int> keep;
    if (r.chance(0.5)) { int b = int(r.range(0, w.nrows - nr)); for (int i = 0; i < nr; ++i) keep.push_back(b + i); }
    else keep = rnd_subset(r, w.nrows, nr);
    std::vector<int> id(size_t(w.nrows), -1);
    for (int i = 0; i < nr; ++i) id[size_t(keep[size_t(i)])] = i;
    p.nrows = nr;
    std::vector<std::vector<int>> cand;
    std::vector<double>           cost;
    for (size_t j = 0; j < w.cols.size(); ++j) {
        std::vector<int> c;
        for (int i : w.cols[j]) if (id[size_t(i)] >= 0) c.push_back(id[size_t(i)]);
        if (c.empty()) continue;
        cand.push_back(c);
        cost.push_back(w.costs[j]);
    }
    std::vector<size_t> order(cand.size());
    for (size_t j = 0; j < order.size(); ++j) order[j] = j;
    if (order.size() > size_t(maxcols)) r.shuffle(order);
    std::vector<char>   cov(size_t(nr), 0);
    std::vector<size_t> pick;
    for (size_t n = 0; n < order.size(); ++n) {
        bool fresh = false;
        for (int i : cand[order[n]]) if (!cov[size_t(i)]) fresh = true;
        if (n >= size_t(maxcols) && !fresh) continue;
        for (int i : cand[order[n]]) cov[size_t(i)] = 1;
        pick.push_back(order[n]);
    }
    std::sort(pick.begin(), pick.end());
    for (size_t j : pick) { p.cols.push_back(cand[j]); p.costs.push_back(cost[j]); }
    return p;
}
}  // namespace v
#endif
