// One-to-one, one-to-many, many-to-many: mutations against the abstract relation, rollback, replay of persisted events.
// KIND: 0 one-to-one (at most one entry per row and per column), 1 one-to-many (at most one per column), 2 many-to-many.
#include "storage_common.h"
#include <vector>
namespace {
using key_t_ = std::pair<int64_t, int64_t>;
template <int KIND> struct Types;
template <> struct Types<0> { using C = O2O; using U = O2OPersistedUpdated; using D = O2OPersistedDeleted; };
template <> struct Types<1> { using C = O2M; using U = O2MPersistedUpdated; using D = O2MPersistedDeleted; };
template <> struct Types<2> { using C = M2M; using U = M2MPersistedUpdated; using D = M2MPersistedDeleted; };

// An arbitrary container satisfying the representation invariant, built lazily: only rows and columns which the
// contract can reach are decided, the rest is an arbitrary number of entries that must stay untouched.
template <int KIND>
struct World {
  using C = typename Types<KIND>::C;
  using U = typename Types<KIND>::U;
  using D = typename Types<KIND>::D;
  MutationJournal journal, journal2;
  C c, replica;
  bool with_replica;
  std::vector<int64_t> rows, cols;
  std::vector<key_t_> cells, lms;
  explicit World(bool with_replica) : c("c", journal), replica("c", journal2), with_replica(with_replica) { any_clock(); }

  bool has(int64_t r, int64_t k) const {
    for (const auto& e : cells) if (e.first == r && e.second == k) return true;
    return false;
  }
  bool row_used(int64_t r) const { for (const auto& e : cells) if (e.first == r) return true; return false; }
  bool col_used(int64_t k) const { for (const auto& e : cells) if (e.second == k) return true; return false; }
  static bool in(const std::vector<int64_t>& v, int64_t x) { for (auto y : v) if (x == y) return true; return false; }
  void put_into(C& x, int64_t r, int64_t k, int64_t v, int64_t us) {
    auto p = std::make_unique<Cell>(r, k, v);
    const Cell* q = p.get();
    x.map_[key_t_(r, k)] = std::move(p);
    x.last_modified_[key_t_(r, k)] = std::chrono::microseconds(us);
    if constexpr (KIND == 0) x.forward_[r] = q; else x.forward_[r][k] = q;
    if constexpr (KIND == 2) x.transposed_[k][r] = q; else x.transposed_[k] = q;
  }
  void put(int64_t r, int64_t k) {
    const int64_t v = irv::any<int64_t>(), us = irv::any<int64_t>();
    put_into(c, r, k, v, us);
    if (with_replica) put_into(replica, r, k, v, us);
    cells.emplace_back(r, k);
    lms.emplace_back(r, k);
  }
  // One-to-one: who holds row r / column k.  One-to-many: who holds column k.
  void explore_row(int64_t r) {
    if (in(rows, r)) return;
    rows.push_back(r);
    if (KIND != 0) return;
    if (!irv::any<bool>()) return;
    const int64_t k = irv::any<int64_t>();
    irv_assume(!in(cols, k));  // the decided columns are free or belong to a decided row
    cols.push_back(k);
    put(r, k);
  }
  void explore_col(int64_t k) {
    if (in(cols, k)) return;
    cols.push_back(k);
    if (KIND == 2) return;
    if (!irv::any<bool>()) return;
    const int64_t r = irv::any<int64_t>();
    if (KIND == 0) {
      irv_assume(!in(rows, r));
      rows.push_back(r);
    } else if (!in(rows, r)) rows.push_back(r);
    put(r, k);
  }
  void explore_cell(int64_t r, int64_t k) {
    if (KIND == 2 && !has(r, k)) { if (irv::any<bool>()) put(r, k); }
  }
  // The time of the last modification of a pair without an entry: deleted earlier, or never seen.
  void explore_lm(int64_t r, int64_t k) {
    for (const auto& e : lms) if (e.first == r && e.second == k) return;
    lms.emplace_back(r, k);
    if (irv::any<bool>()) {
      const auto us = std::chrono::microseconds(irv::any<int64_t>());
      c.last_modified_[key_t_(r, k)] = us;
      if (with_replica) replica.last_modified_[key_t_(r, k)] = us;
    } else {
      irv::absent(c.last_modified_, key_t_(r, k));
      irv::absent(replica.last_modified_, key_t_(r, k));
    }
  }
  // Everything that was not decided above is arbitrary.
  void seal() {
#ifdef IRV_SYMBOLIC
    const size_t n = irv::rest_count();
    std::vector<size_t> row_rest, col_rest;
    if (KIND != 0) for (size_t i = 0; i < rows.size(); ++i) row_rest.push_back(row_used(rows[i]) || irv_decide(irv_ghost_bits(1)) ? irv::rest_count() : 0);
    if (KIND == 2) for (size_t i = 0; i < cols.size(); ++i) col_rest.push_back(col_used(cols[i]) || irv_decide(irv_ghost_bits(1)) ? irv::rest_count() : 0);
    const size_t nr = irv::rest_count(), nc = irv::rest_count();
    seal_one(c, n, nr, nc, row_rest, col_rest);
    if (with_replica) seal_one(replica, n, nr, nc, row_rest, col_rest);
#endif
  }
#ifdef IRV_SYMBOLIC
  void seal_one(C& x, size_t n, size_t nr, size_t nc, const std::vector<size_t>& row_rest, const std::vector<size_t>& col_rest) {
    for (auto r : rows) for (auto k : cols) irv::absent(x.map_, key_t_(r, k));
    size_t i = 0;
    for (auto r : rows) {
      if constexpr (KIND == 0) irv::absent(x.forward_, r);
      else {
        const size_t m = row_rest[i++];
        if (m > 0 || row_used(r)) {
          auto& inner = x.forward_[r];
          for (auto k : cols) irv::absent(inner, k);
          irv::seal(inner, m);
        } else irv::absent(x.forward_, r);
      }
    }
    i = 0;
    for (auto k : cols) {
      if constexpr (KIND != 2) irv::absent(x.transposed_, k);
      else {
        const size_t m = col_rest[i++];
        if (m > 0 || col_used(k)) {
          auto& inner = x.transposed_[k];
          for (auto r : rows) irv::absent(inner, r);
          irv::seal(inner, m);
        } else irv::absent(x.transposed_, k);
      }
    }
    irv::seal(x.map_, n);
    irv::seal(x.forward_, KIND == 0 ? n : nr);
    irv::seal(x.transposed_, KIND == 2 ? nc : n);
    irv::seal(x.last_modified_, nr);
  }
#endif
};

// What a user sees of (r, k), of row r and of column k.
template <int KIND>
struct Snap {
  bool get = false, lm = false, row = false, col = false, empty = false;
  int64_t er = 0, ek = 0, value = 0, us = 0, row_k = 0, row_v = 0, col_r = 0, col_v = 0;
  size_t size = 0, rows = 0, cols = 0, row_size = 0, col_size = 0;
  bool row_has = false, col_has = false, has = false, free_ = false;
  template <class C>
  Snap(const C& c, int64_t r, int64_t k) {
    size = c.Size();
    empty = c.Empty();
    const auto e = c.Get(r, k);
    get = Exists(e);
    if (get) { er = Value(e).row; ek = Value(e).col; value = Value(e).value; }
    const auto t = c.LastModified(r, k);
    lm = Exists(t);
    if (lm) us = Value(t).count();
    rows = c.Rows().Size();
    cols = c.Cols().Size();
    row = c.Rows().Has(r);
    col = c.Cols().Has(k);
    if constexpr (KIND == 0) {
      const auto a = c.GetEntryFromRow(r);
      row_has = Exists(a);
      if (row_has) { row_k = Value(a).col; row_v = Value(a).value; irv_check(Value(a).row == r, "the entry of a row carries that row"); }
      has = get;
    } else {
      has = c.Has(r, k);
      row_has = c.Row(r).Has(k);
      row_size = c.Row(r).Size();
    }
    if constexpr (KIND != 2) {
      const auto a = c.GetEntryFromCol(k);
      col_has = Exists(a);
      if (col_has) { col_r = Value(a).row; col_v = Value(a).value; irv_check(Value(a).col == k, "the entry of a column carries that column"); }
      free_ = c.DoesNotConflict(r, k);
    } else {
      col_has = c.Col(k).Has(r);
      col_size = c.Col(k).Size();
    }
  }
  bool consistent(int64_t r, int64_t k) const {
    bool ok = (has == get) & (!get | ((er == r) & (ek == k))) & (!get | lm) & (empty == (size == 0));
    if (KIND == 0) {
      ok = ok & (row == row_has) & (col == col_has) & (get == (row_has & (row_k == k))) & (get == (col_has & (col_r == r)));
      ok = ok & (!get | ((row_v == value) & (col_v == value))) & (rows == size) & (cols == size) & (free_ == (!row & !col));
    }
    if (KIND == 1) {
      ok = ok & (col == col_has) & (get == row_has) & (get == (col_has & (col_r == r))) & (!get | (col_v == value)) & (cols == size);
      ok = ok & (row == (row_size > 0)) & (free_ == !col);
    }
    if (KIND == 2) ok = ok & (get == row_has) & (get == col_has) & (row == (row_size > 0)) & (col == (col_size > 0));
    return ok;
  }
  bool entry_same(const Snap& s) const { return (get == s.get) & (value == s.value) & (lm == s.lm) & (us == s.us); }
  bool same(const Snap& s) const {
    return entry_same(s) & (er == s.er) & (ek == s.ek) & (row == s.row) & (col == s.col) & (size == s.size) & (rows == s.rows) & (cols == s.cols) & (row_size == s.row_size) &
           (col_size == s.col_size) & (row_k == s.row_k) & (row_v == s.row_v) & (col_r == s.col_r) & (col_v == s.col_v) & (row_has == s.row_has) & (col_has == s.col_has) & (has == s.has) & (free_ == s.free_);
  }
};

template <int KIND>
int64_t last_us(const MutationJournal& j) {
  const auto* e = j.commit_log.back().get();
  if (const auto* u = dynamic_cast<const typename Types<KIND>::U*>(e)) return u->us.count();
  if (const auto* u = dynamic_cast<const typename Types<KIND>::D*>(e)) return u->us.count();
  return -1;
}
enum Op { ADD, ERASE, ERASE_ROW, ERASE_COL };

template <int KIND>
void apply(World<KIND>& w, Op op, int64_t r, int64_t k, int64_t v) {
  if (op == ADD) w.c.Add(Cell(r, k, v));
  if (op == ERASE) w.c.Erase(r, k);
  if constexpr (KIND == 0) { if (op == ERASE_ROW) w.c.EraseRow(r); }
  if constexpr (KIND != 2) { if (op == ERASE_COL) w.c.EraseCol(k); }
}
template <int KIND>
void mutate(World<KIND>& w, Op op, int64_t r, int64_t k, int64_t v, int64_t ro, int64_t ko) {
  using S = Snap<KIND>;
  const S b(w.c, ro, ko), bk(w.c, r, k);
  irv_check_aux(b.consistent(ro, ko) & bk.consistent(r, k), "the explored container satisfies the representation invariant");
  const size_t events = w.journal.commit_log.size();
  apply<KIND>(w, op, r, k, v);
  const S a(w.c, ro, ko), ak(w.c, r, k);
  irv_check(a.consistent(ro, ko) & ak.consistent(r, k), "after the mutation all lookups agree with each other");
  const size_t logged = w.journal.commit_log.size() - events;
  irv_check(w.journal.commit_log.size() == w.journal.rollback_log.size(), "every event has its undo step");
  const bool self = (ro == r) & (ko == k);
  bool evicted = false;  // was the observed entry to be removed
  if (op == ADD) {
    if (KIND == 0) evicted = !self & !bk.get & ((ro == r) | (ko == k));
    if (KIND == 1) evicted = !self & !bk.get & (ko == k);
    const size_t gone = bk.get ? 0 : KIND == 0 ? size_t(bk.row_has) + size_t(bk.col_has) : KIND == 1 ? size_t(bk.col_has) : 0;
    irv_check(ak.get & (ak.value == v), "the added entry is found");
    irv_check(a.size == b.size - gone + (bk.get ? 0 : 1), "the size accounts for the new and the displaced entries");
    irv_check(logged == gone + 1, "one event per displaced entry and one for the new entry are logged");
    irv_check(ak.us == last_us<KIND>(w.journal), "the last modified time is the time of the persisted event");
    if (!self) irv_check(a.get == (b.get & !evicted), "exactly the conflicting entries are displaced");
  } else {
    if (op == ERASE) evicted = self;
    if (op == ERASE_ROW) evicted = ro == r;
    if (op == ERASE_COL) evicted = ko == k;
    const bool found = op == ERASE ? bk.get : op == ERASE_ROW ? bk.row_has : bk.col_has;
    irv_check(a.get == (b.get & !evicted), "exactly the requested entry is erased");
    irv_check(a.size == b.size - (found ? 1 : 0), "the size accounts for the erased entry");
    irv_check(logged == (found ? 1 : 0), "an event is logged exactly when something is erased");
    if (b.get & evicted) irv_check(a.us == last_us<KIND>(w.journal), "the last modified time is the time of the persisted event");
  }
  if (!self && !(b.get & evicted)) irv_check(a.entry_same(b), "other entries and their times stay");
}

enum Aspect { STATE, UNDO, REPLAY };
template <int KIND>
void one(Op op, Aspect aspect) {
  World<KIND> w(aspect == REPLAY);
  const int64_t r = irv::any<int64_t>(), k = irv::any<int64_t>(), v = irv::any<int64_t>(), ro = irv::any<int64_t>(), ko = irv::any<int64_t>();
  w.explore_row(r);
  w.explore_col(k);
  w.explore_row(ro);
  w.explore_col(ko);
  w.explore_cell(r, k);
  w.explore_cell(ro, ko);
  w.explore_cell(r, ko);
  w.explore_cell(ro, k);
  w.explore_lm(r, k);
  w.explore_lm(ro, ko);
  w.seal();
  if (aspect == STATE) {
    mutate<KIND>(w, op, r, k, v, ro, ko);
    irv_cover("end");
    return;
  }
  const Snap<KIND> before(w.c, ro, ko);
  apply<KIND>(w, op, r, k, v);
  if (aspect == REPLAY) {
  replay<typename Types<KIND>::U, typename Types<KIND>::D>(w.journal, w.replica);
  irv_check(Snap<KIND>(w.replica, ro, ko).same(Snap<KIND>(w.c, ro, ko)), "replaying the persisted events gives the same contents");
  irv_check(w.journal2.commit_log.empty() & w.journal2.rollback_log.empty(), "replay does not touch the journal");
  irv_cover("end");
  return;
  }
  w.journal.Rollback();
  irv_check(Snap<KIND>(w.c, ro, ko).same(before), "rollback restores every entry, index, last modified time and the size");
  irv_check(w.journal.commit_log.empty() & w.journal.rollback_log.empty(), "rollback leaves the journal empty");
  irv_cover("end");
}
#ifdef IRV_NATIVE
// Bounded stand-in for longer transactions: a history of up to 12 mutations, one transaction or several.
template <int KIND>
void history() {
  World<KIND> w(true);
  const int64_t ro = irv::any<uint8_t>() % 3, ko = irv::any<uint8_t>() % 3;
  const int n = irv_any_len(12);
  for (int i = 0; i < n; ++i) {
    std::vector<Snap<KIND>> before;
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) before.emplace_back(w.c, a, b);
    const int m = irv_any_len(5);
    for (int j = 0; j < m; ++j) mutate<KIND>(w, static_cast<Op>(irv::any<uint8_t>() % (KIND == 0 ? 4 : KIND == 1 ? 2 : 2)), irv::any<uint8_t>() % 3, irv::any<uint8_t>() % 3, irv::any<int64_t>(), ro, ko);
    if (irv::any<bool>()) {
      w.journal.Rollback();
      size_t q = 0;
      for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) irv_check(Snap<KIND>(w.c, a, b).same(before[q++]), "rollback restores every entry, index, last modified time and the size");
    } else {
      replay<typename Types<KIND>::U, typename Types<KIND>::D>(w.journal, w.replica);
      w.journal.Clear();
      for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) irv_check(Snap<KIND>(w.replica, a, b).same(Snap<KIND>(w.c, a, b)), "replaying the persisted events gives the same contents");
    }
  }
  irv_cover("end");
}
#endif
}  // namespace
