// bfs.hpp - breadth-first exploration of all states that the real object can
// reach; a state is rebuilt by replaying the operations that lead to it.
//
// Sys: reset(); ops(std::vector<int>&) operations enabled now; apply(int op)
// performs one on the real object and on the model, and compares everything
// (mc::fail on a difference); key() identity of the state; name(int op).
#ifndef BFS_HPP
#define BFS_HPP
#include "mc.hpp"
#include <unordered_set>
namespace mc {
struct BfsResult { size_t states = 0, transitions = 0; int depth = 0; bool complete = true; };

template <class Sys>
BfsResult bfs(Explorer& ex, Sys& sys, size_t maxStates, int maxDepth, uint64_t salt) {
  struct Node { int parent; int op; int depth; };
  std::vector<Node> nodes{{-1, -1, 0}};
  std::unordered_set<uint64_t> seen;
  BfsResult r;
  std::vector<int> path, ops;
  auto pathOf = [&](int n) {
    path.clear();
    for (; nodes[n].parent >= 0; n = nodes[n].parent) path.push_back(nodes[n].op);
    std::reverse(path.begin(), path.end());
  };
  auto text = [&](int last) {
    std::string t;
    for (int o : path) t += sys.name(o) + "; ";
    return t + (last == -1 ? "" : sys.name(last));
  };
  sys.reset();
  seen.insert(hash(sys.key()));
  ex.state(hash(sys.key(), salt));
  for (size_t i = 0; i < nodes.size(); ++i) {
    if (nodes[i].depth >= maxDepth) { r.complete = false; break; }
    pathOf(i);
    ops.clear();
    bool fresh = false;
    int last = -1;
    try {
      sys.reset();
      sys.checking = false;            // everything on the way was checked before
      for (int o : path) sys.apply(o);
      sys.checking = true;
      sys.ops(ops);
      fresh = true;
      for (int o : ops) {
        last = o;
        if (!fresh) {
          sys.reset();
          sys.checking = false;
          for (int p : path) sys.apply(p);
          sys.checking = true;
        }
        if (ex.verbose()) ex.note(text(o));
        else if ((r.transitions & 255) == 0) ex.beat();
        sys.apply(o);
        fresh = false;
        ++r.transitions;
        uint64_t h = hash(sys.key());
        if (nodes.size() < maxStates && seen.insert(h).second) {
          nodes.push_back({(int)i, o, nodes[i].depth + 1});
          ex.state(hash(sys.key(), salt));
          r.depth = nodes[i].depth + 1;
        } else if (nodes.size() >= maxStates && !seen.count(h)) r.complete = false;
      }
    } catch (const Violation& v) {
      fail(v.msg + "; after: " + text(last));
    } catch (const std::exception& e) {
      fail(std::string("unexpected exception: ") + e.what() + "; after: " + text(last));
    }
  }
  r.states = nodes.size();
  ex.transitions(r.transitions);
  ex.traces(r.transitions);
  ex.count(r.complete ? "spaces_completed" : "spaces_cut_at_bound");
  return r;
}

/// all operation sequences of exactly this length, from the initial state;
/// part w of n, by the first two operations
template <class Sys>
void sequences(Explorer& ex, Sys& sys, int len, int w, int n, uint64_t salt) {
  std::vector<int> path;
  int start = 0;
  auto text = [&] { std::string t; for (int o : path) t += sys.name(o) + "; "; return t; };
  auto rebuild = [&] {
    sys.reset();
    sys.checking = false;
    for (size_t i = 0; i + 1 < path.size(); ++i) sys.apply(path[i]);
    sys.checking = true;
  };
  std::function<void()> go = [&] {
    std::vector<int> e;
    sys.ops(e);
    bool fresh = true;
    for (int o : e) {
      path.push_back(o);
      if (path.size() != 2 || start++ % n == w) {
        try {
          if (ex.verbose()) ex.note(text());
          if (!fresh) rebuild();
          fresh = false;
          sys.apply(o);
          ex.state(hash(sys.key(), salt));
        } catch (const Violation& v) { fail(v.msg + "; after: " + text()); }
        catch (const std::exception& x) { fail(std::string("unexpected exception: ") + x.what() + "; after: " + text()); }
        if ((int)path.size() < len) go();
        else { ex.transitions(); ex.traces(); ex.beat(); }
      }
      path.pop_back();
    }
  };
  sys.reset();
  go();
}
} // namespace mc
#endif
