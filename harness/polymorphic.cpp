// C20 polymorphic<T>: model-based testing of histories
#include "num.hpp"
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <proxsuite-nlp/third-party/polymorphic_cxx14.hpp>

using namespace vp;

namespace {
// ---------------------------------------------------------------- instrumentation
struct Thrown {};
struct World {
  std::map<void *, std::pair<int, size_t>> blocks; // live allocations: allocator id, bytes
  std::set<const void *> objs;                     // live objects
  int copy_bomb = -1, alloc_bomb = -1, ctor_bomb = -1; // countdowns
  std::string err;
  long copies = 0, moves = 0, allocs = 0;
  void bad(const char *m) {
    if (err.empty())
      err = m;
  }
};
World *W;

template <class T, int FLAGS> struct Al {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::bool_constant<(FLAGS & 1) != 0>;
  using propagate_on_container_move_assignment = std::bool_constant<(FLAGS & 2) != 0>;
  using propagate_on_container_swap = std::bool_constant<(FLAGS & 4) != 0>;
  using is_always_equal = std::bool_constant<(FLAGS & 16) != 0>;
  template <class U> struct rebind {
    using other = Al<U, FLAGS>;
  };
  int id;
  explicit Al(int i = 0) : id((FLAGS & 16) ? 0 : i) {}
  template <class U> Al(const Al<U, FLAGS> &o) : id(o.id) {}
  T *allocate(size_t n) {
    if (W->alloc_bomb >= 0 && W->alloc_bomb-- == 0)
      throw Thrown{};
    void *p = nullptr;
    size_t bytes = n * sizeof(T);
    if (posix_memalign(&p, std::max(sizeof(void *), alignof(T)), bytes))
      throw std::bad_alloc();
    std::memset(p, 0xA5, bytes);
    W->blocks[p] = {id, bytes};
    W->allocs++;
    return static_cast<T *>(p);
  }
  void deallocate(T *p, size_t n) {
    auto it = W->blocks.find(p);
    if (it == W->blocks.end()) {
      W->bad("deallocation of memory which is not allocated");
      return;
    }
    if (it->second.first != id)
      W->bad("memory given back to a different allocator");
    if (it->second.second != n * sizeof(T))
      W->bad("deallocation with a different size");
    W->blocks.erase(it);
    std::free(p);
  }
  Al select_on_container_copy_construction() const { return Al((FLAGS & 8) ? id + 100 : id); }
  bool operator==(const Al &o) const { return id == o.id; }
  bool operator!=(const Al &o) const { return id != o.id; }
};

struct Base {
  int v;
  Base(int x = -7) : v(x) { born(); }
  Base(std::initializer_list<int>, int x) : v(x) { born(); }
  Base(const Base &o) : v(o.v) {
    if (!W->objs.count(&o))
      W->bad("copy of an object which is not alive");
    W->copies++;
    if (W->copy_bomb >= 0 && W->copy_bomb-- == 0)
      throw Thrown{};
    born();
  }
  Base(Base &&o) : v(o.v) {
    if (!W->objs.count(&o))
      W->bad("move of an object which is not alive");
    W->moves++;
    if (W->copy_bomb >= 0 && W->copy_bomb-- == 0)
      throw Thrown{};
    o.v = -1000;
    born();
  }
  Base &operator=(const Base &o) {
    v = o.v;
    return *this;
  }
  virtual ~Base() {
    if (!W->objs.erase(this))
      W->bad("destruction of an object which is not alive");
  }
  void born() {
    if (!W->objs.insert(this).second)
      W->bad("construction over a live object");
  }
  virtual int kind() const { return 0; }
  virtual long code() const { return v; }
  virtual void set(int x) { v = x; }
};
struct Small : Base {
  using Base::Base;
  int kind() const override { return 1; }
  long code() const override { return 3L * v + 1; }
};
struct Other {
  long pad[3] = {11, 22, 33};
  virtual ~Other() {}
  virtual int tag() const { return 5; }
};
/// Base is not at offset zero.
struct Multi : Other, Base {
  std::vector<int> data;
  Multi(int x) : Base(x), data(5, x) {}
  int kind() const override { return 2; }
  long code() const override {
    long r = v;
    for (int d : data)
      r = r * 31 + d;
    return r + pad[0] + pad[1] + pad[2];
  }
  void set(int x) override {
    v = x;
    data.assign(5, x);
  }
};
struct alignas(64) Wide : Base {
  double m[8];
  Wide(int x) : Base(x) {
    for (double &d : m)
      d = x;
  }
  int kind() const override { return 3; }
  long code() const override {
    if (reinterpret_cast<uintptr_t>(this) % 64)
      W->bad("misaligned object");
    double r = 0;
    for (double d : m)
      r += d;
    return 5 * v + (long)r;
  }
  void set(int x) override {
    v = x;
    for (double &d : m)
      d = x;
  }
};
struct Listed : Base {
  std::vector<int> l;
  Listed(std::initializer_list<int> i, int x) : Base(x), l(i) {}
  int kind() const override { return 4; }
  long code() const override {
    long r = v;
    for (int d : l)
      r = r * 17 + d;
    return r;
  }
};
struct Late : Base { // the constructor itself may fail after its base is built
  Late(int x) : Base(x) {
    if (W->ctor_bomb >= 0 && W->ctor_bomb-- == 0)
      throw Thrown{};
  }
  int kind() const override { return 5; }
};

struct Val {
  int kind;
  int v;
  std::vector<int> l;
  bool moved_from = false; // an unspecified but valid value
  long code() const {
    long r = v;
    switch (kind) {
    case 0:
    case 5:
      return v;
    case 1:
      return 3L * v + 1;
    case 2:
      for (int i = 0; i < 5; i++)
        r = r * 31 + v;
      return r + 66;
    case 3:
      return 5L * v + 8L * v;
    default:
      for (int d : l)
        r = r * 17 + d;
      return r;
    }
  }
};

template <int FLAGS> void history(Src &s, Ctx &c, bool faults) {
  using A = Al<Base, FLAGS>;
  using P = xyz::polymorphic<Base, A>;
  World world;
  W = &world;
  {
    const int N = 4;
    std::unique_ptr<P> slot[N];
    std::optional<Val> model[N]; // nullopt: no variable, or valueless
    int aid[N] = {0, 0, 0, 0};
    auto verify = [&](const char *op) {
      c.require(world.err.empty(), std::string(op) + ": " + world.err);
      size_t live = 0;
      for (int i = 0; i < N; i++) {
        if (!slot[i])
          continue;
        const P &p = *slot[i];
        c.require(p.get_allocator().id == aid[i], std::string(op) + ": allocator of a variable");
        if (!model[i]) {
          c.require(p.valueless_after_move(), std::string(op) + ": variable should be valueless");
          continue;
        }
        c.require(!p.valueless_after_move(), std::string(op) + ": variable lost its value");
        live++;
        c.require(world.objs.count(&*p) == 1, std::string(op) + ": owned object is not alive");
        c.require(p->kind() == model[i]->kind, std::string(op) + ": dynamic type of the value");
        if (!model[i]->moved_from)
          c.require(p->code() == model[i]->code(), std::string(op) + ": value");
        c.require(p.operator->() == &*p && const_cast<P &>(p).operator->() == &*p,
                  std::string(op) + ": accessors disagree");
        static_assert(std::is_same_v<decltype(*p), const Base &>, "const access is deep");
        for (int j = 0; j < i; j++)
          if (slot[j] && model[j])
            c.require(&**slot[j] != &*p, std::string(op) + ": two variables share one object");
      }
      c.require(world.objs.size() == live, std::string(op) + ": number of live objects");
      c.require(world.blocks.size() == live, std::string(op) + ": number of live allocations");
      c.require(world.err.empty(), std::string(op) + ": " + world.err);
    };
    int steps = s.chance(1, 24) ? s.range(25, 200) : s.size(1, 24), interesting = 0;
    for (int t = 0; t < steps; t++) {
      int i = s.below(N), j = s.below(N), x = s.range(-50, 50), id = s.below((FLAGS & 16) ? 1 : 2);
      world.copy_bomb = world.alloc_bomb = world.ctor_bomb = -1;
      if (faults && s.chance(1, 3)) {
        int k = s.below(3);
        (k == 0 ? world.copy_bomb : k == 1 ? world.alloc_bomb : world.ctor_bomb) = s.below(2);
      }
      int op = t < 2 ? 0 : s.below(11);
      if (t == 1)
        i = (i + 1) % N;
      const char *name = "";
      bool threw = false;
      try {
        switch (op) {
        case 0: case 1: case 2: { // construct
          int k = s.below(8), how = s.below(3);
          name = "construct";
          std::unique_ptr<P> n;
          Val m{k, x, {}};
          A al(id);
          if (how == 2)
            id = 0;
          try {
#define MAKE(U, ...)                                                                                                   \
  {                                                                                                                    \
    if (how == 0)                                                                                                      \
      n.reset(new P(std::allocator_arg, al, xyz::in_place_type_t<U>{}, x));                                            \
    else if (how == 1)                                                                                                 \
      n.reset(new P(std::allocator_arg, al, U(x)));                                                                    \
    else                                                                                                               \
      n.reset(new P(xyz::in_place_type_t<U>{}, x));                                                                    \
  }
            switch (k) {
            case 0:
              MAKE(Base);
              break;
            case 1:
              MAKE(Small);
              break;
            case 2:
              MAKE(Multi);
              break;
            case 3:
              MAKE(Wide);
              break;
            case 4:
              name = "construct from initializer list";
              m.l = {3, 1, 4};
              if (how == 2)
                n.reset(new P(xyz::in_place_type_t<Listed>{}, {3, 1, 4}, x));
              else
                n.reset(new P(std::allocator_arg, al, xyz::in_place_type_t<Listed>{}, {3, 1, 4}, x));
              break;
            case 5:
              MAKE(Late);
              break;
            case 6: { // from a named value
              name = "construct from an lvalue";
              m.kind = 2;
              id = 0;
              Multi src(x);
              n.reset(new P(src));
              c.require(src.code() == m.code(), "the source of a copy is unchanged");
              break;
            }
            default: // default construction
              name = "default construct";
              m.kind = 0;
              m.v = -7;
              if (how == 2)
                n.reset(new P());
              else
                n.reset(new P(std::allocator_arg, al));
            }
          } catch (const Thrown &) {
            threw = true;
          }
          if (!threw) {
            slot[i] = std::move(n);
            model[i] = m;
            aid[i] = id;
          }
          break;
        }
        case 3: { // copy construction
          if (!slot[j])
            break;
          bool ext = s.flag();
          name = ext ? "copy with allocator" : "copy";
          std::unique_ptr<P> n(ext ? new P(std::allocator_arg, A(id), *slot[j]) : new P(*slot[j]));
          auto m = model[j];
          int na = ext ? id : ((FLAGS & 8) && !(FLAGS & 16) ? aid[j] + 100 : aid[j]);
          slot[i] = std::move(n);
          model[i] = m;
          aid[i] = na;
          interesting++;
          break;
        }
        case 4: { // move construction
          if (!slot[j])
            break;
          bool ext = s.flag();
          name = ext ? "move with allocator" : "move";
          int na = ext ? id : aid[j];
          const void *addr = model[j] ? &**slot[j] : nullptr;
          auto m = model[j];
          std::unique_ptr<P> n;
          n.reset(ext ? new P(std::allocator_arg, A(id), std::move(*slot[j])) : new P(std::move(*slot[j])));
          if (na == aid[j]) {
            model[j].reset(); // ownership is transferred
            c.require(!addr || &**n == addr, "moving between equal allocators must not relocate the value");
          } else if (model[j] && slot[j]->valueless_after_move())
            model[j].reset();
          else if (model[j])
            model[j]->moved_from = true;
          if (i == j)
            model[j] = m;
          slot[i] = std::move(n);
          model[i] = m;
          aid[i] = na;
          interesting++;
          break;
        }
        case 5: { // copy assignment
          if (!slot[i] || !slot[j])
            break;
          name = "copy assignment";
          long before = world.copies;
          *slot[i] = *slot[j];
          if (i == j)
            c.require(world.copies == before, "self assignment");
          model[i] = model[j];
          if (FLAGS & 1)
            aid[i] = aid[j];
          interesting++;
          break;
        }
        case 6: { // move assignment
          if (!slot[i] || !slot[j])
            break;
          name = "move assignment";
          const void *addr = model[j] ? &**slot[j] : nullptr;
          if ((FLAGS & 2) && aid[i] != aid[j]) // declared noexcept: a failing allocation ends the program
            world.copy_bomb = world.alloc_bomb = -1;
          *slot[i] = std::move(*slot[j]);
          if (i != j) {
            model[i] = model[j];
            if (aid[i] == aid[j]) {
              model[j].reset();
              c.require(!addr || &**slot[i] == addr, "moving between equal allocators must not relocate the value");
            } else if (model[j] && slot[j]->valueless_after_move())
              model[j].reset();
            else if (model[j])
              model[j]->moved_from = true;
            if (FLAGS & 2)
              aid[i] = aid[j];
          }
          interesting++;
          break;
        }
        case 7: { // swap
          if (!slot[i] || !slot[j])
            break;
          if (aid[i] != aid[j] && !(FLAGS & 4))
            break; // undefined
          name = "swap";
          const void *a0 = model[i] ? &**slot[i] : nullptr, *a1 = model[j] ? &**slot[j] : nullptr;
          long cp = world.copies + world.moves;
          if (s.flag())
            slot[i]->swap(*slot[j]);
          else {
            using std::swap;
            swap(*slot[i], *slot[j]);
          }
          std::swap(model[i], model[j]);
          if (FLAGS & 4)
            std::swap(aid[i], aid[j]);
          c.require(world.copies + world.moves == cp, "swap must not copy");
          if (i != j) {
            c.require(!a1 || &**slot[i] == a1, "swap exchanges the objects");
            c.require(!a0 || &**slot[j] == a0, "swap exchanges the objects");
          }
          interesting++;
          break;
        }
        case 8: // mutate through the handle
          if (!slot[i] || !model[i])
            break;
          name = "mutation";
          (*slot[i])->set(x);
          model[i]->v = x;
          if (model[i]->kind != 4)
            model[i]->moved_from = false;
          break;
        case 9: // end of a variable
          name = "destruction";
          slot[i].reset();
          model[i].reset();
          break;
        default: { // vectors of values
          name = "vector";
          bool any = false;
          for (int k = 0; k < N; k++)
            any = any || (slot[k] && model[k] && !model[k]->moved_from);
          if (!any)
            break;
          std::vector<P> vec;
          std::vector<Val> mv;
          for (int k = 0; k < N; k++)
            if (slot[k] && model[k] && !model[k]->moved_from) {
              vec.push_back(*slot[k]);
              mv.push_back(*model[k]);
            }
          std::vector<P> copy(vec), three;
          three = copy;
          copy.clear();
          for (size_t k = 0; k < mv.size(); k++)
            c.require(vec[k]->code() == mv[k].code() && three[k]->code() == mv[k].code(), "elements of a vector");
          vec.erase(vec.begin());
          for (size_t k = 1; k < mv.size(); k++)
            c.require(vec[k - 1]->code() == mv[k].code(), "elements of a vector after erasing the first");
        }
        }
      } catch (const Thrown &) {
        threw = true;
      }
      world.copy_bomb = world.alloc_bomb = world.ctor_bomb = -1;
      c.dump << t << ": " << name << " " << i << " " << j << " (value " << x << ", allocator " << id << ")"
             << (threw ? " threw" : "") << "\n";
      if (threw) {
        c.label("exception");
        interesting++;
      }
      // a failed operation leaves all values as they were
      verify(*name ? name : "step");
    }
    if (interesting >= 2)
      c.nontrivial();
    if (faults)
      c.label("faults injected");
  }
  c.require(world.err.empty(), "end: " + world.err);
  c.require(world.objs.empty(), "objects leaked");
  c.require(world.blocks.empty(), "memory leaked");
  W = nullptr;
}

void dispatch(Src &s, Ctx &c, bool faults) {
  static const int flags[] = {0, 1, 2, 3, 4, 7, 8, 15, 16};
  int k = s.below(9);
  c.note("allocator flags", flags[k]);
  switch (k) {
  case 0: return history<0>(s, c, faults);
  case 1: return history<1>(s, c, faults);
  case 2: return history<2>(s, c, faults);
  case 3: return history<3>(s, c, faults);
  case 4: return history<4>(s, c, faults);
  case 5: return history<7>(s, c, faults);
  case 6: return history<8>(s, c, faults);
  case 7: return history<15>(s, c, faults);
  default: return history<16>(s, c, faults);
  }
}
void c20_history(Src &s, Ctx &c) { dispatch(s, c, false); }
void c20_faults(Src &s, Ctx &c) { dispatch(s, c, true); }
} // namespace

int main(int argc, char **argv) {
  return engine_main(argc, argv,
                     {{"C20", "history", 1500000, 20000000, c20_history,
                       "at least two copies, moves, assignments or swaps of existing variables"},
                      {"C20", "faults", 1500000, 20000000, c20_faults,
                       "at least two copies, moves, assignments, swaps or injected exceptions"}});
}
