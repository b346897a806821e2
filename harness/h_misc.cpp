// Ownership handles, shared values, iterator views and cost estimates.
#include <cmath>
#include <list>
#include <memory>

#include "common.h"

#include "walnut/big_uint_word.h"
#include "walnut/concat_range.h"
#include "walnut/deed.h"
#include "walnut/m_log_n_estimator.h"
#include "walnut/redirectable_value.h"
#include "walnut/transform_iterator.h"

namespace vf {
using namespace walnut;

// ---------------------------------------------------------------------------
// L01: deeds against a model of who holds what.

struct Parcel : public DeedTarget {
  explicit Parcel(int v) : value(v) {}
  Parcel(const Parcel&) = default;
  Parcel(Parcel&&) = default;
  Parcel& operator=(const Parcel&) = default;
  Parcel& operator=(Parcel&&) = default;
  int value;
};

// D is the kind of deed.
template <typename D>
struct DeedWorld {
  struct Holder {
    std::unique_ptr<D> deed;
    int object = -1;  // Which object it is for, even while it is lent.
    int lender = -1;
    int borrower = -1;
  };
  struct Object {
    std::unique_ptr<Parcel> parcel;
    int top = -1;  // The holder who can reach it.
  };
  std::map<int, Holder> holders;
  std::map<int, Object> objects;
  int next = 0;

  static DeedTarget* Get(const D& d) { return d.get(); }

  void Check(const std::string& log) {
    for (auto& h : holders) {
      bool lent = h.second.borrower >= 0;
      VREQ(h.second.deed->is_lender() == lent, "L01-lender", "deed " << h.first << ": " << log);
      if (lent) continue;
      DeedTarget* want = h.second.object < 0 ? nullptr : objects[h.second.object].parcel.get();
      VREQ(Get(*h.second.deed) == want, "L01-object", "deed " << h.first << " is for another object: " << log);
      VREQ(bool(*h.second.deed) == (want != nullptr), "L01-bool", log);
      VREQ((*h.second.deed == nullptr) == (want == nullptr), "L01-null", log);
      VREQ((*h.second.deed != nullptr) == (want != nullptr), "L01-not-null", log);
      Count("deeds_checked");
    }
  }
};

template <typename D>
static D LendFrom(D& d) { return d.Lend(); }

template <typename D>
static void RunDeeds(Rng& r) {
  // Deeds in a wrong state cannot be destroyed in any order.
  DeedWorld<D>* leaked = new DeedWorld<D>;
  DeedWorld<D>& w = *leaked;
  std::string log;
  auto say = [&](const std::string& s) { log += s + "; "; Observe(s); };
  auto pick_holder = [&](bool lent_ok) -> int {
    std::vector<int> v;
    for (auto& h : w.holders) if (lent_ok || h.second.borrower < 0) v.push_back(h.first);
    return v.empty() ? -1 : r.pick(v);
  };
  auto pick_object = [&]() -> int {
    std::vector<int> v;
    for (auto& o : w.objects) v.push_back(o.first);
    return v.empty() ? -1 : r.pick(v);
  };
  // The deed no longer holds anything.
  auto release = [&](int h) {
    auto& x = w.holders[h];
    if (x.lender >= 0) {
      auto& l = w.holders[x.lender];
      l.borrower = -1;
      l.object = x.object;
      if (x.object >= 0) w.objects[x.object].top = x.lender;
    } else if (x.object >= 0) {
      w.objects[x.object].top = -1;
    }
    x.lender = -1;
    x.object = -1;
  };
  int steps = r.range(5, 60);
  std::string N;
  for (int step = 0; step < steps; ++step) {
    switch (r.below(12)) {
      case 0: {
        int o = w.next++;
        w.objects[o].parcel.reset(new Parcel(o));
        say("new object " + std::to_string(o));
        break;
      }
      case 1: case 2: {
        int o = pick_object();
        int h = w.next++;
        auto& x = w.holders[h];
        if (o < 0 || r.chance(1, 10)) {
          if (r.coin()) x.deed.reset(new D());
          else { x.deed.reset(new D((Parcel*)nullptr)); Count("null_pointers"); }
          say("empty deed " + std::to_string(h));
          break;
        }
        x.deed.reset(new D(w.objects[o].parcel.get()));
        x.object = o;
        x.lender = w.objects[o].top;
        if (x.lender >= 0) { w.holders[x.lender].borrower = h; Count("borrowed_from_object"); }
        w.objects[o].top = h;
        say("deed " + std::to_string(h) + " for object " + std::to_string(o));
        break;
      }
      case 3: case 4: {
        int l = pick_holder(false);
        if (l < 0) break;
        int h = w.next++;
        auto& x = w.holders[h];
        x.deed.reset(new D(LendFrom(*w.holders[l].deed)));
        x.object = w.holders[l].object;
        x.lender = l;
        w.holders[l].borrower = h;
        if (x.object >= 0) w.objects[x.object].top = h;
        else Count("lent_nothing");
        say("deed " + std::to_string(h) + " lent by " + std::to_string(l));
        Count("lends");
        break;
      }
      case 5: {
        int h = pick_holder(false);
        if (h < 0) break;
        w.holders[h].deed->Return();
        release(h);
        say("return " + std::to_string(h));
        Count("returns");
        break;
      }
      case 6: {
        int h = pick_holder(false);
        if (h < 0) break;
        release(h);
        w.holders.erase(h);
        say("destroy deed " + std::to_string(h));
        break;
      }
      case 7: {
        // Move to a new deed.
        int h = pick_holder(false);
        if (h < 0) break;
        int k = w.next++;
        auto& x = w.holders[k];
        auto& y = w.holders[h];
        x.deed.reset(new D(std::move(*y.deed)));
        x.object = y.object;
        x.lender = y.lender;
        y.object = y.lender = -1;
        if (x.lender >= 0) w.holders[x.lender].borrower = k;
        if (x.object >= 0) w.objects[x.object].top = k;
        say("move deed " + std::to_string(h) + " to " + std::to_string(k));
        Count("deed_moves");
        break;
      }
      case 8: {
        int h = pick_holder(false), k = pick_holder(false);
        if (h < 0) break;
        // A deed is not swapped with its own borrower or lender.
        auto& x = w.holders[h];
        auto& y = w.holders[k];
        bool assign = r.coin();
        if (assign) *x.deed = std::move(*y.deed);
        else x.deed->swap(*y.deed);
        // Either way, nobody loses what they had for others.
        if (h != k) {
          std::swap(x.object, y.object);
          std::swap(x.lender, y.lender);
          for (int i : {h, k}) {
            auto& z = w.holders[i];
            if (z.lender >= 0) w.holders[z.lender].borrower = i;
            if (z.object >= 0) w.objects[z.object].top = i;
          }
        }
        say((assign ? "assign " : "swap ") + std::to_string(h) + " " + std::to_string(k));
        Count("swaps");
        break;
      }
      case 9: {
        // Move the object.
        int o = pick_object();
        if (o < 0) break;
        auto& x = w.objects[o];
        if (x.top >= 0) Count(w.holders[x.top].lender >= 0 ? "lent_objects_moved" : "owned_objects_moved");
        std::unique_ptr<Parcel> moved(new Parcel(std::move(*x.parcel)));
        x.parcel = std::move(moved);
        say("move object " + std::to_string(o));
        break;
      }
      case 10: {
        int o = pick_object(), p = pick_object();
        if (o < 0) break;
        auto& x = w.objects[o];
        auto& y = w.objects[p];
        if (r.coin()) {
          *x.parcel = *y.parcel;
          say("copy object " + std::to_string(p) + " over " + std::to_string(o));
        } else {
          // Owners follow the values.
          *x.parcel = std::move(*y.parcel);
          if (o != p) {
            std::swap(x.top, y.top);
            for (int i : {o, p}) {
              int h = w.objects[i].top;
              while (h >= 0) { w.holders[h].object = i; h = w.holders[h].lender; }
            }
          }
          say("move object " + std::to_string(p) + " over " + std::to_string(o));
          Count("object_assigns");
        }
        break;
      }
      default: {
        // Destroy the object, or a copy of it.
        int o = pick_object();
        if (o < 0) break;
        auto& x = w.objects[o];
        if (r.coin()) { Parcel copy(*x.parcel); say("copy object " + std::to_string(o)); break; }
        int h = x.top;
        while (h >= 0) { w.holders[h].object = -1; h = w.holders[h].lender; }
        w.objects.erase(o);
        say("destroy object " + std::to_string(o));
        Count("objects_destroyed");
      }
    }
    w.Check(log);
  }
  // Borrowers go first.
  while (!w.holders.empty()) {
    int h = pick_holder(false);
    release(h);
    w.holders.erase(h);
    w.Check(log);
  }
  delete leaked;
  if (steps > 10) NonTrivial();
  if (WantSample() && steps > 20) Sample(log);
}

PROPERTY(L01) {
  if (r.chance(2, 3)) RunDeeds<Deed<Parcel>>(r);
  else RunDeeds<GenericDeed>(r);
}

// ---------------------------------------------------------------------------
// L02: redirected values

struct Tracked {
  static int& live() { static int n = 0; return n; }
  explicit Tracked(int v) : value(v), self(this) { ++live(); }
  Tracked() : Tracked(-1) {}
  Tracked(const Tracked& o) : value(o.value), self(this) { ++live(); }
  ~Tracked() { --live(); VREQ_OK(); self = nullptr; }
  void VREQ_OK() const { if (self != this) Report("L02-bad-object", "a value was used or destroyed in the wrong place"); }
  int value;
  const Tracked* self;
};

PROPERTY(L02) {
  int before = Tracked::live();
  std::string log;
  {
    typedef RedirectableValue<Tracked> Value;
    std::list<Value> values;  // Destroyed at the end: nothing may point to a destroyed value.
    std::vector<Value*> at;
    std::vector<int> group;   // The primary of every value.
    std::vector<int> number;  // The value that a primary was made with.
    int steps = r.range(4, 40);
    int made = 0;
    for (int s = 0; s < steps; ++s) {
      switch (r.below(4)) {
        case 0: {
          int v = (int)r.range(1, 1000);
          if (r.chance(1, 5)) { values.emplace_back(); v = -1; }
          else values.emplace_back(v);
          ++made;
          at.push_back(&values.back());
          group.push_back(at.size() - 1);
          number.push_back(v);
          log += "new " + std::to_string(at.size() - 1) + "; ";
          break;
        }
        case 1: {
          if (at.empty()) break;
          size_t i = r.below(at.size());
          if (r.coin()) values.emplace_back(*at[i]);
          else values.emplace_back((const Value&)*at[i]);
          at.push_back(&values.back());
          group.push_back(group[i]);
          number.push_back(0);
          log += "copy " + std::to_string(i) + "; ";
          Count("copies");
          break;
        }
        default: {
          // Merge two groups: the primary of one is redirected.
          if (at.empty()) break;
          size_t i = r.below(at.size()), j = r.below(at.size());
          if (r.chance(3, 4)) i = group[i];
          if (i != (size_t)group[i] && group[i] != group[j]) {
            // Only this value moves. Its followers, if it ever had any, are not
            // specified, so take one that was always a follower.
            bool was_primary = false;
            was_primary = number[i] != 0;
            if (was_primary) break;
            at[i]->Redirect(*at[j]);
            group[i] = group[j];
            Count("followers_moved");
          } else {
            int old = group[i];
            at[i]->Redirect(*at[j]);
            if (old != group[j]) {
              int to = group[j];
              for (auto& g : group) if (g == old) g = to;
              --made;
              Count("primaries_redirected");
            } else {
              Count("no_op_redirects");
            }
          }
          log += "redirect " + std::to_string(i) + " to " + std::to_string(j) + "; ";
        }
      }
      VREQ(Tracked::live() - before == made, "L02-live", Tracked::live() - before << " values instead of " << made << ": " << log);
      for (size_t i = 0; i < at.size(); ++i) {
        const Value& c = *at[i];
        VREQ(&c.primary() == at[group[i]] && &at[i]->primary() == at[group[i]], "L02-primary", i << ": " << log);
        VREQ(c.IsPrimary() == (group[i] == (int)i), "L02-is-primary", i << ": " << log);
        VREQ(c->value == number[group[i]] && (*c).value == number[group[i]] && (*at[i])->value == number[group[i]] &&
             (**at[i]).value == number[group[i]], "L02-value", i << ": " << log);
        c->VREQ_OK();
        for (size_t j = 0; j < i; ++j) {
          VREQ((c == *at[j]) == (group[i] == group[j]), "L02-equal", i << " " << j << ": " << log);
          VREQ((c != *at[j]) == (group[i] != group[j]), "L02-unequal", i << " " << j << ": " << log);
        }
        Count("values_checked");
      }
      if (r.chance(1, 4) && !at.empty()) {
        size_t i = r.below(at.size());
        int v = (int)r.range(1, 5000);
        (*at[i])->value = v;
        number[group[i]] = v;
      }
    }
    if (at.size() > 3) NonTrivial();
    Observe(log);
    if (WantSample() && at.size() > 4) Sample(log);
  }
  VREQ(Tracked::live() == before, "L02-leak", Tracked::live() - before << " values are left: " << log);
}

// ---------------------------------------------------------------------------
// L03: concatenated and transformed views

struct Cell { int key; int value; };
struct ByTable {
  ByTable() = default;
  explicit ByTable(std::vector<int>* t) : table(t) {}
  int& operator()(int& i) const { return (*table)[i]; }
  const int& operator()(const int& i) const { return (*table)[i]; }
  std::vector<int>* table = nullptr;
};

template <typename To, typename From>
static auto AssignAll(To& to, const From& from) -> decltype(to = from, void()) { to = from; }
static void AssignAll(...) { Count("not_assignable"); }

// Everything about a bidirectional view.
template <typename Range>
static void CheckView(Rng& r, Range& range, const std::vector<const int*>& want, const std::string& key, const std::string& log) {
  const Range& c = range;
  size_t i = 0;
  for (auto it = c.begin(); it != c.end(); ++it, ++i) {
    VREQ(i < want.size() && &*it == want[i], key + "-forward", "element " << i << " of " << want.size() << ": " << log);
    VREQ(it.operator->() == want[i], key + "-arrow", log);
  }
  VREQ(i == want.size(), key + "-length", i << " instead of " << want.size() << ": " << log);
  for (auto it = range.end(); it != range.begin();) {
    --it; --i;
    VREQ(i < want.size() && &*it == want[i], key + "-backward", "element " << i << ": " << log);
  }
  i = want.size();
  for (auto it = c.rbegin(); it != c.rend(); ++it) VREQ(i-- > 0 && &*it == want[i], key + "-reverse", "element " << i << ": " << log);
  VREQ(i == 0, key + "-reverse-length", log);
  // A walk in both directions.
  auto it = c.begin();
  size_t at = 0;
  for (int k = 0; k < 20; ++k) {
    auto before = it;
    size_t was = at;
    bool post = r.coin();
    if (r.coin()) {
      if (at == want.size()) continue;
      if (post) { auto old = it++; VREQ(old == before, key + "-post", log); if (was < want.size()) VREQ(&*old == want[was], key + "-post-value", log); }
      else { auto& now = ++it; VREQ(&now == &it, key + "-pre", log); }
      ++at;
    } else {
      if (at == 0) continue;
      if (post) { auto old = it--; VREQ(old == before, key + "-post", log); if (was < want.size()) VREQ(&*old == want[was], key + "-post-value", log); }
      else { auto& now = --it; VREQ(&now == &it, key + "-pre", log); }
      --at;
    }
    VREQ(!(it == before) && it != before, key + "-moved", log);
    VREQ((it == c.end()) == (at == want.size()), key + "-at-end", log);
    if (at < want.size()) VREQ(&*it == want[at], key + "-walk", "element " << at << ": " << log);
  }
  for (int k = 0; k < 4; ++k) {
    size_t from = r.below(want.size() + 1), to = from + r.below(want.size() + 1 - from);
    auto x = c.begin();
    for (size_t j = 0; j < from; ++j) ++x;
    auto y = x + (to - from);
    VREQ((y == c.end()) == (to == want.size()), key + "-plus-end", from << " + " << to - from << " of " << want.size() << ": " << log);
    if (to < want.size()) {
      VREQ(&*y == want[to], key + "-plus", from << " + " << to - from << ": " << log);
      VREQ(&x[to - from] == want[to], key + "-index", from << " " << to - from << ": " << log);
    }
    // A changeable iterator can be assigned to one that is not.
    auto m = range.begin();
    for (size_t j = 0; j < from; ++j) ++m;
    AssignAll(x, m);
    VREQ((x == c.end()) == (from == want.size()), key + "-assign-end", log);
    if (from < want.size()) VREQ(&*x == want[from], key + "-assign", log);
    Count("offsets");
  }
}

template <typename Container>
static void RunViews(Rng& r) {
  std::list<Container> stores;
  for (int i = 0, n = r.range(1, 4); i < n; ++i) {
    Container c;
    for (int k = 0, m = r.range(0, 6); k < m; ++k) c.push_back(k + 10 * i);
    stores.push_back(std::move(c));
  }
  std::vector<Container*> store;
  for (auto& s : stores) store.push_back(&s);
  typedef ConcatRange<typename Container::iterator> Range;
  std::list<Range> views;
  std::list<std::vector<const int*>> wants;
  views.emplace_back(); wants.emplace_back();
  std::vector<Range*> view = {&views.back()};
  std::vector<std::vector<const int*>*> want = {&wants.back()};
  std::string log;
  int steps = r.range(1, 12);
  for (int s = 0; s < steps; ++s) {
    if (view.size() < 3 && r.chance(1, 5)) {
      views.emplace_back(); wants.emplace_back();
      view.push_back(&views.back()); want.push_back(&wants.back());
    }
    size_t v = r.below(view.size());
    bool front = r.coin();
    std::vector<const int*> added;
    if (r.chance(1, 12)) {
      view[v]->Clear();
      want[v]->clear();
      log += "clear " + std::to_string(v) + "; ";
    } else if (view.size() > 1 && r.chance(1, 2)) {
      // Part of another view.
      size_t o = (v + 1 + r.below(view.size() - 1)) % view.size();
      size_t n = want[o]->size();
      size_t from = r.below(n + 1), to = from + r.below(n + 1 - from);
      if (r.coin()) { from = 0; to = n; }
      typename Range::const_iterator a = view[o]->cbegin(), b = view[o]->cbegin();
      for (size_t k = 0; k < from; ++k) ++a;
      for (size_t k = 0; k < to; ++k) ++b;
      added.assign(want[o]->begin() + from, want[o]->begin() + to);
      if (front) view[v]->Prepend(a, b); else view[v]->Append(a, b);
      log += (front ? "prepend " : "append ") + std::to_string(from) + "-" + std::to_string(to) + " of view " + std::to_string(o) +
             " to view " + std::to_string(v) + "; ";
      Count(front ? "views_prepended" : "views_appended");
    } else {
      Container& c = *r.pick(store);
      size_t n = c.size();
      size_t from = r.below(n + 1), to = from + r.below(n + 1 - from);
      auto a = c.begin(), b = c.begin();
      std::advance(a, from);
      std::advance(b, to);
      for (auto x = a; x != b; ++x) added.push_back(&*x);
      if (front) view[v]->Prepend(a, b); else view[v]->Append(a, b);
      log += (front ? "prepend " : "append ") + std::to_string(to - from) + " to view " + std::to_string(v) + "; ";
      Count(front ? "ranges_prepended" : "ranges_appended");
    }
    want[v]->insert(front ? want[v]->begin() : want[v]->end(), added.begin(), added.end());
    for (size_t k = 0; k < view.size(); ++k) CheckView(r, *view[k], *want[k], "L03", log);
    CountMax("elements", want[v]->size());
  }
  Observe(log);
  if (steps > 3) NonTrivial();
  if (WantSample() && steps > 5) Sample(log);
}

static void RunTransform(Rng& r) {
  std::vector<int> table, index;
  for (int i = 0, n = r.range(1, 9); i < n; ++i) table.push_back((int)r.range(0, 99));
  for (int i = 0, n = r.range(1, 12); i < n; ++i) index.push_back(r.below(table.size()));
  typedef TransformIterator<std::vector<int>::iterator, ByTable> It;
  typedef TransformIterator<std::vector<int>::const_iterator, ByTable> CIt;
  const ByTable f(&table);
  It begin(index.begin(), f), end(index.end(), f);
  const long n = index.size();
  long at = 0;
  It it = begin;
  std::string log;
  for (int s = 0; s < 30; ++s) {
    long to = r.range(0, n);
    switch (r.below(8)) {
      case 0: if (at == n) continue; { It old = it++; VREQ(&*old == &table[index[at]], "L03-transform-post-increment", log); } ++at; log += "it++ "; break;
      case 1: if (at == 0) continue; { It old = it--; if (at < n) VREQ(&*old == &table[index[at]], "L03-transform-post-decrement", log); } --at; log += "it-- "; break;
      case 2: if (at == n) continue; ++it; ++at; log += "++it "; break;
      case 3: if (at == 0) continue; --it; --at; log += "--it "; break;
      case 4: it = it + (to - at); at = to; log += "+ "; break;
      case 5: it = it - (at - to); at = to; log += "- "; break;
      case 6: it += to - at; at = to; log += "+= "; break;
      default: it -= at - to; at = to; log += "-= "; break;
    }
    VREQ((it == end) == (at == n) && (it != end) == (at != n), "L03-transform-end", log);
    VREQ(it - begin == at && end - it == n - at, "L03-transform-distance", log);
    VREQ((it < end) == (at < n) && (it >= end) == (at >= n) && (it > begin) == (at > 0) && (it <= begin) == (at <= 0),
         "L03-transform-order", log);
    CIt c(it);
    VREQ(c == it, "L03-transform-const", log);
    if (at < n) {
      VREQ(&*it == &table[index[at]], "L03-transform-element", log);
      VREQ(it.operator->() == &table[index[at]], "L03-transform-arrow", log);
      VREQ(&it[0] == &table[index[at]], "L03-transform-index", log);
    }
    if (n) { long k = r.range(0, n - 1); VREQ(&it[k - at] == &table[index[k]], "L03-transform-offset", log); }
    Count("transformed_steps");
  }
  Observe(log);
  NonTrivial();
}

PROPERTY(L03) {
  switch (r.below(3)) {
    case 0: RunViews<std::vector<int>>(r); break;
    case 1: RunViews<std::vector<int>>(r); break;
    default: RunTransform(r);
  }
}

// ---------------------------------------------------------------------------
// L04: cost estimates

PROPERTY(L04) {
  MLogNEstimator e;
  std::string log;
  for (int k = 0; k < 40; ++k) {
    uint64_t n;
    switch (r.below(4)) {
      case 0: n = r.range(1, 64); break;
      case 1: n = (uint64_t)1 << r.below(50); n += r.range(-1, 1); if (n == 0) n = 1; break;
      default: n = (r.next() >> (14 + r.below(50))) + 1;
    }
    uint64_t m = r.below(4) == 0 ? r.below(4 * n + 1) : r.below(n + 1);
    if (r.chance(1, 8)) m = 4 * n;
    // The estimator remembers things between calls.
    size_t got = e.Estimate(m, n);
    double want = (double)m * std::log2((double)n);
    VREQ(std::abs((double)got - want) <= 1.0000001 + 0.033 * want, "L04-estimate",
         m << " log2 " << n << " is about " << want << " instead of " << got << " after " << log);
    log += std::to_string(m) + "*" + std::to_string(n) + " ";
    Observe(got);
    Count("estimates");
    // More work never costs less.
    VREQ(e.Estimate(m + 1, n) >= got, "L04-monotone", m << " " << n);
    // What a split costs is the sum of its sides.
    uint64_t neg = r.below(5000), pos = r.below(5000);
    uint64_t ne = r.below(3) ? 0 : r.below(neg + 1), pe = r.below(3) ? 0 : r.below(pos + 1);
    if (neg - ne + 1 >= neg / 4 + 1 && pos - pe + 1 >= pos / 4 + 1) {
      size_t cost = GetSplitCost(neg, ne, pos, pe);
      size_t sum = MLogNEstimator().Estimate(neg, neg - ne + 1) + MLogNEstimator().Estimate(pos, pos - pe + 1);
      VREQ(cost == sum, "L04-split-cost",
           neg << "-" << ne << " " << pos << "-" << pe << " costs " << sum << " instead of " << cost);
      Count("split_costs");
    }
  }
  NonTrivial();
  if (WantSample()) Sample(log);
}

}  // namespace vf

VERIF_MAIN
