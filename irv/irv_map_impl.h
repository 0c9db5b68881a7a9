// No include guard: included once per map flavour with IRV_MAP_* defined.
namespace std {
#ifdef IRV_MAP_UNORDERED
template <IRV_MAP_TPARAMS>
#else
template <IRV_MAP_TPARAMS>
#endif
class IRV_MAP_NAME {
 public:
  using key_type = K;
  using mapped_type = V;
  using value_type = std::pair<const K, V>;
  using size_type = size_t;
  using difference_type = ptrdiff_t;
  using reference = value_type&;
  using const_reference = const value_type&;
  using pointer = value_type*;
  using const_pointer = const value_type*;
  using allocator_type = A;
#ifdef IRV_MAP_UNORDERED
  using hasher = H;
  using key_equal = E;
#else
  using key_compare = E;
#endif
  struct node {
    node* next;
    K key;
    value_type* kv;  // null: known to be absent
    explicit node(const K& k) : next(nullptr), key(k), kv(nullptr) {}
  };
  template <bool CONST>
  struct iter {
    using iterator_category = std::forward_iterator_tag;
    using value_type = typename IRV_MAP_NAME::value_type;
    using difference_type = ptrdiff_t;
    using pointer = std::conditional_t<CONST, const value_type*, value_type*>;
    using reference = std::conditional_t<CONST, const value_type&, value_type&>;
    const IRV_MAP_NAME* m = nullptr;
    node* n = nullptr;
    iter() = default;
    iter(const IRV_MAP_NAME* m, node* n) : m(m), n(n) {}
    template <bool C2, class = std::enable_if_t<CONST && !C2>>
    iter(const iter<C2>& rhs) : m(rhs.m), n(rhs.n) {}
    reference operator*() const { return *n->kv; }
    pointer operator->() const { return n->kv; }
    iter& operator++() {
      n = m->irv_next(n);
      return *this;
    }
    iter operator++(int) {
      iter r = *this;
      ++*this;
      return r;
    }
    template <bool C2>
    bool operator==(const iter<C2>& rhs) const { return n == rhs.n; }
    template <bool C2>
    bool operator!=(const iter<C2>& rhs) const { return n != rhs.n; }
  };
  using iterator = iter<false>;
  using const_iterator = iter<true>;
  using local_iterator = iterator;
  using const_local_iterator = const_iterator;
  using builder_t = V (*)(const K&, void*);

  IRV_MAP_NAME() = default;
  IRV_MAP_NAME(const IRV_MAP_NAME& rhs) { irv_copy(rhs); }
  IRV_MAP_NAME(IRV_MAP_NAME&& rhs) noexcept { irv_steal(rhs); }
  IRV_MAP_NAME(std::initializer_list<value_type> l) {
    for (const auto& e : l) insert(e);
  }
  template <class It>
  IRV_MAP_NAME(It b, It e) {
    for (; b != e; ++b) insert(*b);
  }
  ~IRV_MAP_NAME() { irv_release(); }
  IRV_MAP_NAME& operator=(const IRV_MAP_NAME& rhs) {
    if (this != &rhs) {
      irv_release();
      irv_copy(rhs);
    }
    return *this;
  }
  IRV_MAP_NAME& operator=(IRV_MAP_NAME&& rhs) noexcept {
    if (this != &rhs) {
      irv_release();
      irv_steal(rhs);
    }
    return *this;
  }

  // Makes this map an arbitrary one.
  void irv_make_symbolic(builder_t build, void* ctx) {
    irv_release();
    build_ = build;
    ctx_ = ctx;
    rest_ = irv_ghost_bits(64);
    irv_assume(rest_ <= (1ull << 40));
    id_ = irv_map_begin();
  }
  // Keeps the entries known so far and adds an arbitrary number `rest` of other entries, which the code under
  // verification must not touch (touching one is reported as out of reach, never assumed away).
  void irv_seal(size_t rest) {
    build_ = irv_sealed;
    rest_ = rest;
    id_ = irv_map_begin();
  }
  static V irv_sealed(const K&, void*) {
    irv_unsupported("access to a map entry outside of the explored footprint");
    __builtin_unreachable();
  }
  void irv_absent(const K& k) {
    if (irv_known(k)) return;
    node* n = new node(k);
    n->next = head_;
    head_ = n;
  }
  bool irv_is_symbolic() const { return build_ != nullptr; }

  iterator find(const K& k) { return iterator(this, irv_find(k)); }
  const_iterator find(const K& k) const { return const_iterator(this, irv_find(k)); }
  size_t count(const K& k) const { return irv_find(k) ? 1 : 0; }
  V& at(const K& k) {
    node* n = irv_find(k);
    if (!n) std::__throw_out_of_range("at");
    return n->kv->second;
  }
  const V& at(const K& k) const {
    node* n = irv_find(k);
    if (!n) std::__throw_out_of_range("at");
    return n->kv->second;
  }
  V& operator[](const K& k) {
    node* n = irv_slot(k);
    if (!n->kv) {
      n->kv = new value_type(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple());
      ++known_;
    }
    return n->kv->second;
  }
  std::pair<iterator, bool> insert(const value_type& v) {
    node* n = irv_slot(v.first);
    if (n->kv) return {iterator(this, n), false};
    n->kv = new value_type(v);
    ++known_;
    return {iterator(this, n), true};
  }
  std::pair<iterator, bool> insert(value_type&& v) {
    node* n = irv_slot(v.first);
    if (n->kv) return {iterator(this, n), false};
    n->kv = new value_type(std::move(v));
    ++known_;
    return {iterator(this, n), true};
  }
  template <class P, class = std::enable_if_t<std::is_constructible<value_type, P&&>::value>>
  std::pair<iterator, bool> insert(P&& p) {
    return emplace(std::forward<P>(p));
  }
  template <class... ARGS>
  std::pair<iterator, bool> emplace(ARGS&&... args) {
    value_type* kv = new value_type(std::forward<ARGS>(args)...);
    node* n = irv_slot(kv->first);
    if (n->kv) {
      delete kv;
      return {iterator(this, n), false};
    }
    n->kv = kv;
    ++known_;
    return {iterator(this, n), true};
  }
  template <class... ARGS>
  std::pair<iterator, bool> try_emplace(const K& k, ARGS&&... args) {
    node* n = irv_slot(k);
    if (n->kv) return {iterator(this, n), false};
    n->kv = new value_type(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<ARGS>(args)...));
    ++known_;
    return {iterator(this, n), true};
  }
  size_t erase(const K& k) {
    node* n = irv_find(k);
    if (!n) return 0;
    irv_erase(n);
    return 1;
  }
  iterator erase(const_iterator i) {
    node* nx = irv_is_symbolic() ? nullptr : irv_next(i.n);
    irv_erase(i.n);
    return iterator(this, nx);
  }
  iterator erase(iterator i) { return erase(const_iterator(i)); }
  void clear() {
    irv_release();
    rest_ = 0;
    build_ = nullptr;
  }
  size_t size() const { return rest_ + known_; }
  bool empty() const { return size() == 0; }
  void reserve(size_t) {}
  void rehash(size_t) {}
  iterator begin() { return iterator(this, irv_first()); }
  iterator end() { return iterator(this, nullptr); }
  const_iterator begin() const { return const_iterator(this, irv_first()); }
  const_iterator end() const { return const_iterator(this, nullptr); }
  const_iterator cbegin() const { return const_iterator(this, irv_first()); }
  const_iterator cend() const { return const_iterator(this, nullptr); }
  void swap(IRV_MAP_NAME& rhs) {
    IRV_MAP_NAME t(std::move(rhs));
    rhs = std::move(*this);
    *this = std::move(t);
  }
  template <class M2>
  friend bool irv_map_equal(const M2&, const M2&);
#ifndef IRV_MAP_UNORDERED
  const_iterator lower_bound(const K&) const { irv_unsupported("lower_bound on a map contract"); return end(); }
  iterator lower_bound(const K&) { irv_unsupported("lower_bound on a map contract"); return end(); }
  const_iterator upper_bound(const K&) const { irv_unsupported("upper_bound on a map contract"); return end(); }
  iterator upper_bound(const K&) { irv_unsupported("upper_bound on a map contract"); return end(); }
#endif

 private:
  template <bool> friend struct iter;
  static bool irv_eq(const K& a, const K& b) { return IRV_MAP_EQ(a, b); }
  node* irv_known(const K& k) const {
    for (node* n = head_; n; n = n->next) {
      if (irv_eq(n->key, k)) return n;
    }
    return nullptr;
  }
  // The known node of `k`, discovering it when the map is symbolic.
  node* irv_discover(const K& k) const {
    node* n = irv_known(k);
    if (n || !build_) return n;
    if (build_ == irv_sealed) irv_unsupported("access to a map entry outside of the explored footprint");
    const bool present = irv_ghost_bits(1);
    irv_assume(!present | (rest_ > 0));
    n = new node(k);
    n->next = head_;
    head_ = n;
    irv_map_entry(id_, present);
    if (present) {
      irv::record_key(k);
      n->kv = new value_type(k, build_(k, ctx_));
      --rest_;
      ++known_;
    }
    irv_map_entry_end();
    return n;
  }
  node* irv_find(const K& k) const {
    node* n = irv_discover(k);
    return n && n->kv ? n : nullptr;
  }
  node* irv_slot(const K& k) {
    node* n = irv_discover(k);
    if (!n) {
      n = new node(k);
      n->next = nullptr;
      node** p = &head_;
#ifdef IRV_MAP_LESS
      while (*p && IRV_MAP_LESS((*p)->key, k)) p = &(*p)->next;
#else
      while (*p) p = &(*p)->next;
#endif
      n->next = *p;
      *p = n;
    }
    return n;
  }
  void irv_erase(node* n) {
    delete n->kv;
    n->kv = nullptr;
    --known_;
    if (!build_) {
      node** p = &head_;
      while (*p != n) p = &(*p)->next;
      *p = n->next;
      delete n;
    }
  }
  node* irv_first() const {
    if (build_) irv_unsupported("iteration over a symbolic map");
    return irv_skip(head_);
  }
  node* irv_next(node* n) const {
    if (build_) irv_unsupported("iteration over a symbolic map");
    return irv_skip(n->next);
  }
  node* irv_skip(node* n) const {
    while (n && !n->kv) n = n->next;
    return n;
  }
  void irv_copy(const IRV_MAP_NAME& rhs) {
    if (rhs.build_) irv_unsupported("copy of a symbolic map");
    node** p = &head_;
    for (node* n = rhs.head_; n; n = n->next) {
      *p = new node(n->key);
      if (n->kv) (*p)->kv = new value_type(*n->kv);
      p = &(*p)->next;
    }
    known_ = rhs.known_;
  }
  void irv_steal(IRV_MAP_NAME& rhs) {
    head_ = rhs.head_;
    build_ = rhs.build_;
    ctx_ = rhs.ctx_;
    rest_ = rhs.rest_;
    known_ = rhs.known_;
    id_ = rhs.id_;
    rhs.head_ = nullptr;
    rhs.build_ = nullptr;
    rhs.rest_ = 0;
    rhs.known_ = 0;
  }
  void irv_release() {
    node* n = head_;
    while (n) {
      node* x = n->next;
      delete n->kv;
      delete n;
      n = x;
    }
    head_ = nullptr;
    known_ = 0;
    rest_ = 0;
    build_ = nullptr;
  }
  mutable node* head_ = nullptr;
  builder_t build_ = nullptr;
  void* ctx_ = nullptr;
  mutable size_t rest_ = 0;
  mutable size_t known_ = 0;
  int id_ = 0;
};
template <IRV_MAP_TPARAMS_NODEF>
bool operator==(const IRV_MAP_NAME<IRV_MAP_TARGS>& a, const IRV_MAP_NAME<IRV_MAP_TARGS>& b) {
  if (a.size() != b.size()) return false;
  for (const auto& e : a) {
    auto i = b.find(e.first);
    if (i == b.end() || !(i->second == e.second)) return false;
  }
  return true;
}
template <IRV_MAP_TPARAMS_NODEF>
bool operator!=(const IRV_MAP_NAME<IRV_MAP_TARGS>& a, const IRV_MAP_NAME<IRV_MAP_TARGS>& b) { return !(a == b); }
}  // namespace std
