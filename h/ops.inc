// Operations of vf::Machine (included inside the class).  Every operation:
// plans the expected effect on the model, executes the real call, compares.
template <class F> void withVals(const EV& es, F f) {
  std::vector<Val> v;
  v.reserve(es.size());
  for (El* e : es) v.push_back(val(e));
  f(v);
}
bool room(int s) const { return int(M[s].ord[0].size()) < maxsz; }
void hitRefusal(int s, const El* e) {
  bool later = false, early = false;
  for (int i = 0; i < N; ++i) if (kUnq(kind(s, i))) {
    int S = sel(s, i); bool c = false;
    for (El* x : M[s].ord[i]) if (x != e && keq(M[s].st[i], key(x, S), key(e, S))) c = true;
    if (c) { if (i) later = true; else early = true; }
  }
  if (later && !early) VF_HIT_G(G_INS, "insertion refused by a later index only");
  else VF_HIT_G(G_INS, "insertion refused by the first index");
}
static bool in(const EV& v, const void* t) { for (El* e : v) if (static_cast<TagBase*>(e) == t) return true; return false; }

// ---------------------------------------------------------------- insertion
void op_INS(const Op& o) {
  if constexpr (has(G_INS)) {
    int s = slot(o.a[0]);
    if (!room(s)) return;
    int i = pickI(o.a[1], s, M_ALL);
    on<M_ALL>(s, i, [&](auto&, auto& ix, auto Ic, auto Kc) {
      constexpr int I = decltype(Ic)::value; constexpr Kind K = decltype(Kc)::value; (void)I;
      El* e = mkv(o.a[2]);
      Plan p(M[s]);
      int var = int(o.a[3] % 3), w = int(o.a[4] % 3);
      std::size_t n = M[s].ord[0].size(), pos = w == 0 ? n : w == 1 ? 0 : (o.a[4] / 3) % (n + 1);
      EV cl = clashes(M[s], s, e);
      bool ok = kLst(K) ? place(p, s, e, I, pos) : place(p, s, e);
      if (ok) expectNew(e);
      bool second = false; const Val* got = nullptr;
      {
        Val v = val(e);
        call(STRONG, [&] {
          auto take = [&](auto r) { second = r.second; got = r.first == ix.end() ? nullptr : &*r.first; };
          if constexpr (kLst(K)) {
            auto pi = itAt(ix, ix, M[s].ord[I], pos);
            if (w == 0) { if (var == 0) take(ix.push_back(v)); else if (var == 1) take(ix.push_back(std::move(v))); else take(ix.emplace_back(e->id, e->a, e->b, e->c)); }
            else if (w == 1) { if (var == 0) take(ix.push_front(v)); else if (var == 1) take(ix.push_front(std::move(v))); else take(ix.emplace_front(e->id, e->a, e->b, e->c)); }
            else { if (var == 0) take(ix.insert(pi, v)); else if (var == 1) take(ix.insert(pi, std::move(v))); else take(ix.emplace(pi, e->id, e->a, e->b, e->c)); }
          }
          else { if (var == 0) take(ix.insert(v)); else if (var == 1) take(ix.insert(std::move(v))); else take(ix.emplace(e->id, e->a, e->b, e->c)); }
        });
      }
      if (threw) { strong({s}); return; }
      done(s, p);
      if (second != ok) VF_FAIL("insertion ", ok ? "refused though no element clashes" : "reported as successful though an element clashes");
      if (ok) { if (got != e->addr) VF_FAIL("insertion: returned iterator does not designate the new element"); VF_FEAT("insertion accepted"); }
      else { hitRefusal(s, e); if (!got || !in(cl, got->tag)) VF_FAIL("refused insertion: returned iterator does not designate a clashing element"); }
    });
  }
}
void op_INSH(const Op& o) {
  if constexpr (has(G_INS)) {
    int s = slot(o.a[0]);
    if (!room(s)) return;
    int i = pickI(o.a[1], s, M_KEY);
    if (i < 0) return;
    on<M_KEY>(s, i, [&](auto&, auto& ix, auto Ic, auto Kc) {
      constexpr int I = decltype(Ic)::value; constexpr Kind K = decltype(Kc)::value;
      El* e = mkv(o.a[2]);
      Plan p(M[s]);
      std::size_t n = M[s].ord[0].size(), pos = (o.a[4] / 4) % (n + 1);
      if (kOrd(K) && o.a[4] % 4) {  // mostly near the right place
        std::size_t lo = lowerOf(M[s], s, I, key(e, sel(s, I))), hi = upperOf(M[s], s, I, key(e, sel(s, I)));
        pos = o.a[4] % 4 == 1 ? lo : o.a[4] % 4 == 2 ? hi : std::min(n, lo + (o.a[4] / 4) % (hi - lo + 2));
        if (hi > lo + 1) VF_HIT_G(G_LOOK, "hinted insertion among several equivalents");
      }
      EV cl = clashes(M[s], s, e);
      bool ok = place(p, s, e, I, pos, true);
      if (ok) expectNew(e);
      const Val* got = nullptr;
      {
        Val v = val(e);
        call(STRONG, [&] {
          auto pi = itAt(ix, ix, M[s].ord[I], pos);
          auto take = [&](auto r) { got = r == ix.end() ? nullptr : &*r; };
          switch (o.a[3] % 3) {
            case 0: take(ix.insert(pi, v)); break;
            case 1: take(ix.insert(pi, std::move(v))); break;
            default: take(ix.emplace_hint(pi, e->id, e->a, e->b, e->c)); break;
          }
        });
      }
      if (threw) { strong({s}); return; }
      done(s, p);
      if (ok) { if (got != e->addr) VF_FAIL("hinted insertion: returned iterator does not designate the new element"); }
      else { hitRefusal(s, e); if (!got || !in(cl, got->tag)) VF_FAIL("refused hinted insertion: returned iterator does not designate a clashing element"); }
    });
  }
}
void op_INSR(const Op& o) {
  if constexpr (has(G_INS)) {
    int s = slot(o.a[0]);
    if (!room(s)) return;
    int i = pickI(o.a[1], s, M_ALL);
    on<M_ALL>(s, i, [&](auto&, auto& ix, auto Ic, auto Kc) {
      constexpr int I = decltype(Ic)::value; constexpr Kind K = decltype(Kc)::value;
      int var = int(o.a[3] % 5), n = int((o.a[3] / 5) % 7);
      if (var == 3) n = 3;
      std::size_t pos = o.a[4] % (M[s].ord[0].size() + 1), at = pos;
      EV es; Rng r(o.a[2]);
      for (int k = 0; k < n; ++k) es.push_back(var == 4 ? mk(0, 0, 0) : k && r.chance(1, 4) ? mk(es[0]->a, es[0]->b, es[0]->c) : mkv(k == 0 ? o.a[2] : uint32_t(r.next())));
      Plan p(M[s]);
      int refused = 0;
      for (El* e : es) {
        bool ok = kLst(K) ? place(p, s, e, I, at, false, true) : place(p, s, e, -1, 0, false, true);
        if (ok) { ++at; expectNew(e); } else ++refused;
      }
      if (refused && refused < n) VF_HIT_G(G_INS, "range insertion partly refused");
      if (n > 1 && kLst(K)) VF_HIT_G(G_SEQ, "range inserted into a list");
      withVals(es, [&](std::vector<Val>& v) {
        std::list<Val> li;
        std::vector<int> ids;
        if (var == 1) li.assign(v.begin(), v.end());
        for (El* e : es) ids.push_back(e->id);
        std::initializer_list<Val> il = {n > 0 ? v[0] : Val(), n > 1 ? v[1] : Val(), n > 2 ? v[2] : Val()};
        call(BASIC, [&] {
          auto doit = [&](auto... a) {
            if constexpr (kLst(K)) ix.insert(itAt(ix, ix, M[s].ord[I], pos), a...);
            else ix.insert(a...);
          };
          switch (var) {
            case 0: doit(v.begin(), v.end()); break;
            case 1: doit(li.begin(), li.end()); break;
            case 2: doit(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end())); break;
            case 3: doit(il); break;
            default: doit(ids.begin(), ids.end()); break;
          }
        });
      });
      if (threw) { basic({s}, true, -1); return; }
      done(s, p);
    });
  }
}
void op_INSN(const Op& o) {
  if constexpr (has(G_SEQ)) {
    int s = slot(o.a[0]);
    if (!room(s)) return;
    int i = pickI(o.a[1], s, M_LST);
    if (i < 0) return;
    on<M_LST>(s, i, [&](auto&, auto& ix, auto Ic, auto) {
      constexpr int I = decltype(Ic)::value;
      int n = int(o.a[3] % 5);
      std::size_t pos = o.a[4] % (M[s].ord[0].size() + 1), at = pos;
      Plan p(M[s]); p.first = I;
      El* proto = mkv(o.a[2]);
      for (int k = 0; k < n; ++k) { El* e = clone(proto); if (place(p, s, e, I, at, false, true)) { ++at; expectNew(e); } }
      {
        Val v = val(proto);
        call(BASIC, [&] { ix.insert(itAt(ix, ix, M[s].ord[I], pos), typename std::remove_reference_t<decltype(ix)>::size_type(n), v); });
      }
      if (threw) { basic({s}, true, -1); return; }
      done(s, p);
      if (n > 1) VF_HIT_G(G_SEQ, "n copies inserted");
    });
  }
}
void op_RESIZE(const Op& o) {
  if constexpr (has(G_SEQ)) {
    int s = slot(o.a[0]);
    int i = pickI(o.a[1], s, M_LST);
    if (i < 0) return;
    on<M_LST>(s, i, [&](auto&, auto& ix, auto Ic, auto) {
      constexpr int I = decltype(Ic)::value;
      std::size_t sz = M[s].ord[0].size();
      std::size_t n = o.a[3] % 2 ? (sz > (o.a[2] % 5) ? sz - o.a[2] % 5 : 0) : sz + o.a[2] % 5;
      bool withv = (o.a[3] / 2) % 2;
      Plan p(M[s]); p.first = I;
      El* proto = mkv(o.a[4]);
      if (n > sz) for (std::size_t k = sz; k < n; ++k) {
        El* e = withv ? clone(proto) : mk(0, 0, 0);
        if (place(p, s, e, -1, 0, false, true)) expectNew(e);
        if (!withv && k == sz) Val::default_id() = e->id;
      }
      else { EV d(M[s].ord[I].begin() + n, M[s].ord[I].end()); for (El* e : d) drop(p, e); if (!d.empty()) VF_HIT_G(G_SEQ, "resize shrinks"); }
      {
        Val v = val(proto);
        call(BASIC, [&] { if (withv) ix.resize(n, v); else ix.resize(n); });
      }
      Val::default_id() = -1000000;
      if (threw) { basic({s}, n > sz, -1); return; }
      done(s, p);
    });
  }
}
void op_ASSIGN(const Op& o) {
  if constexpr (has(G_SEQ)) {
    int s = slot(o.a[0]);
    int i = pickI(o.a[1], s, M_LST);
    if (i < 0) return;
    on<M_LST>(s, i, [&](auto&, auto& ix, auto Ic, auto) {
      constexpr int I = decltype(Ic)::value;
      int var = int(o.a[3] % 3), n = int((o.a[3] / 3) % 6);
      if (var == 2) n = 2;
      Plan p(M[s]); p.first = I;
      for (El* e : EV(M[s].ord[0])) drop(p, e);
      EV es; Rng r(o.a[2]);
      for (int k = 0; k < n; ++k) {
        El* e = var == 1 ? (k ? clone(es[0]) : mkv(o.a[2])) : mkv(k ? uint32_t(r.next()) : o.a[2]);
        es.push_back(e);
        if (place(p, s, e, -1, 0, false, true)) expectNew(e);
      }
      withVals(es, [&](std::vector<Val>& v) {
        std::initializer_list<Val> il = {n > 0 ? v[0] : Val(), n > 1 ? v[1] : Val()};
        call(BASIC, [&] {
          if (var == 0) ix.assign(v.begin(), v.end());
          else if (var == 1) { if (n) ix.assign(typename std::remove_reference_t<decltype(ix)>::size_type(n), v[0]); else ix.assign(v.begin(), v.end()); }
          else ix.assign(il);
        });
      });
      if (threw) { basic({s}, false, -1); return; }
      if (!M[s].ord[0].empty()) VF_HIT_G(G_SEQ, "assign replaces contents");
      done(s, p);
    });
  }
}
void op_BULK(const Op& o) {  // many insertions, one comparison
  if constexpr (has(G_BULK)) {
    int s = slot(o.a[0]);
    int i = pickI(o.a[1], s, M_ALL);
    on<M_ALL>(s, i, [&](auto&, auto& ix, auto, auto Kc) {
      constexpr Kind K = decltype(Kc)::value;
      int n = std::min<int>(int(o.a[3] % 160), maxsz - int(M[s].ord[0].size()));
      int shape = int(o.a[4] % 4), base = int(o.a[2] % 1024);
      Rng r(o.a[2]);
      Plan p(M[s]);
      EV es;
      for (int k = 0; k < n; ++k) {
        El* e = shape == 0 ? mkv(uint32_t(r.next())) : shape == 1 ? mk((base + k) % Da, (base + k) % Db, (base + k) % Dc) : shape == 2 ? mk((base + n - k) % Da, (base + n - k) % Db, (base + n - k) % Dc) : mk(base % Da, k % Db, (k / 3) % Dc);
        bool ok = place(p, s, e);
        if (ok) expectNew(e);
        Val v = val(e);
        bool second;
        if constexpr (kLst(K)) second = ix.push_back(v).second; else second = ix.insert(v).second;
        if (second != ok) VF_FAIL("bulk insertion ", k, ": success is ", second, ", expected ", ok);
      }
      done(s, p);
      if (M[s].ord[0].size() > 60) VF_HIT_G(G_BULK, "container of more than 60 elements");
    });
  }
}
void op_ERASEHALF(const Op& o) {
  if constexpr (has(G_BULK)) {
    int s = slot(o.a[0]);
    int i = pickI(o.a[1], s, M_ALL);
    on<M_ALL>(s, i, [&](auto&, auto& ix, auto Ic, auto) {
      constexpr int I = decltype(Ic)::value;
      Plan p(M[s]);
      Rng r(o.a[2]);
      EV all = M[s].ord[I];
      int mode = int(o.a[3] % 4), pct = 1 + int(o.a[4] % 9);
      std::size_t from = all.empty() ? 0 : o.a[2] % all.size(), len = all.size() * std::size_t(pct) / 10;
      if (mode == 3) for (std::size_t k = all.size(); k > 1; --k) std::swap(all[k - 1], all[r.below(uint32_t(k))]);
      if (mode == 2) std::reverse(all.begin(), all.end());
      for (std::size_t k = 0; k < all.size(); ++k) {
        bool d = mode == 0 ? r.chance(pct, 10) : mode == 1 ? (k >= from && k < from + len) : k < len;
        if (d) { drop(p, all[k]); ix.erase(ix.iterator_to(*all[k]->addr)); }
      }
      done(s, p);
      if (all.size() > 40) VF_HIT_G(G_BULK, "bulk erasure from a large container");
    });
  }
}

// ---------------------------------------------------------------- erasure
void op_ERA(const Op& o) {
  if constexpr (has(G_ERA)) {
    int s = slot(o.a[0]);
    int i = pickI(o.a[1], s, M_ALL);
    if (M[s].ord[0].empty()) return;
    on<M_ALL>(s, i, [&](auto&, auto& ix, auto Ic, auto) {
      constexpr int I = decltype(Ic)::value;
      EV old = M[s].ord[I];
      std::size_t pos = o.a[2] % old.size();
      Plan p(M[s]);
      drop(p, old[pos]);
      auto it = itAt(ix, ix, old, pos);
      decltype(ix.end()) ret = ix.end();
      call(NOTHROW, [&] { ret = ix.erase(it); });
      done(s, p);
      chkIt(ix, ret, old, pos + 1, "erase(position)");
      VF_HIT_G(G_ERA, "element erased by iterator");
    });
  }
}
void op_ERAR(const Op& o) {
  if constexpr (has(G_ERA)) {
    int s = slot(o.a[0]);
    int i = pickI(o.a[1], s, M_ALL);
    on<M_ALL>(s, i, [&](auto&, auto& ix, auto Ic, auto) {
      constexpr int I = decltype(Ic)::value;
      EV old = M[s].ord[I];
      std::size_t f = o.a[2] % (old.size() + 1), l = std::min(old.size(), f + o.a[3] % 6);
      Plan p(M[s]);
      for (std::size_t k = f; k < l; ++k) drop(p, old[k]);
      auto itf = itAt(ix, ix, old, f), itl = itAt(ix, ix, old, l);
      decltype(ix.end()) ret = ix.end();
      call(NOTHROW, [&] { ret = ix.erase(itf, itl); });
      done(s, p);
      chkIt(ix, ret, old, l, "erase(first,last)");
      if (l > f + 1) VF_HIT_G(G_ERA, "range of several elements erased");
    });
  }
}
void op_ERAK(const Op& o) {
  if constexpr (has(G_ERA)) {
    int s = slot(o.a[0]);
    int i = pickI(o.a[1], s, M_KEY);
    if (i < 0) return;
    on<M_KEY>(s, i, [&](auto&, auto& ix, auto Ic, auto) {
      constexpr int I = decltype(Ic)::value;
      EV old = M[s].ord[I];
      int S = sel(s, I);
      int k = (o.a[3] % 4 && !old.empty()) ? key(old[o.a[2] % old.size()], S) : int(o.a[2] % 20);
      Plan p(M[s]);
      std::size_t n = 0;
      for (El* e : old) if (keq(M[s].st[I], key(e, S), k)) { drop(p, e); ++n; }
      std::size_t ret = 0;
      call(BASIC, [&] { ret = ix.erase(k); });
      if (threw) { basic({s}, false, -1); return; }
      done(s, p);
      if (ret != n) VF_FAIL("erase(key) returned ", ret, ", expected ", n);
      if (n > 1) VF_HIT_G(G_ERA, "several equivalent elements erased by key");
    });
  }
}
void op_POP(const Op& o) {
  if constexpr (has(G_ERA)) {
    int s = slot(o.a[0]);
    int i = pickI(o.a[1], s, M_LST);
    if (i < 0 || M[s].ord[0].empty()) return;
    on<M_LST>(s, i, [&](auto&, auto& ix, auto Ic, auto) {
      constexpr int I = decltype(Ic)::value;
      Plan p(M[s]);
      if (o.a[2] % 2) { drop(p, EV(M[s].ord[I]).front()); call(NOTHROW, [&] { ix.pop_front(); }); }
      else { drop(p, EV(M[s].ord[I]).back()); call(NOTHROW, [&] { ix.pop_back(); }); }
      done(s, p);
    });
  }
}
void op_CLEAR(const Op& o) {
  if constexpr (has(G_ERA)) {
    int s = slot(o.a[0]);
    if (o.a[3] % 4) return;  // rarely
    int i = pickI(o.a[1], s, M_ALL);
    on<M_ALL>(s, i, [&](auto& c, auto& ix, auto, auto) {
      Plan p(M[s]);
      for (El* e : EV(M[s].ord[0])) drop(p, e);
      call(NOTHROW, [&] { if (o.a[2] % 2) c.clear(); else ix.clear(); });
      done(s, p);
    });
  }
}

// ---------------------------------------------------------------- lookup
template <class F> void bounds(const EV& v, F before, F after, std::size_t& lo, std::size_t& hi) {
  lo = 0; while (lo < v.size() && before(v[lo])) ++lo;
  hi = lo; while (hi < v.size() && !after(v[hi])) ++hi;
}
template <class Ix, class K, class... X> void lookOrd(Ix& ix, const EV& v, std::size_t lo, std::size_t hi, const K& k, const X&... x) {
  auto f = ix.find(k, x...);
  if (lo == hi) { if (f != ix.end()) VF_FAIL("find: found an element though none is equivalent"); }
  else {
    if (f == ix.end()) VF_FAIL("find: end() though ", hi - lo, " elements are equivalent");
    bool okf = false;
    for (std::size_t j = lo; j < hi; ++j) if (&*f == v[j]->addr) okf = true;
    if (!okf) VF_FAIL("find: returned an element that is not equivalent");
  }
  if (ix.count(k, x...) != hi - lo) VF_FAIL("count: ", ix.count(k, x...), ", expected ", hi - lo);
  if (ix.contains(k, x...) != (hi > lo)) VF_FAIL("contains: wrong");
  chkIt(ix, ix.lower_bound(k, x...), v, lo, "lower_bound");
  chkIt(ix, ix.upper_bound(k, x...), v, hi, "upper_bound");
  auto r = ix.equal_range(k, x...);
  chkIt(ix, r.first, v, lo, "equal_range.first");
  chkIt(ix, r.second, v, hi, "equal_range.second");
}
template <class Ix, class K, class... X> void lookRnk(Ix& ix, const EV& v, std::size_t lo, std::size_t hi, const K& k, const X&... x) {
  std::size_t fr = ix.find_rank(k, x...);
  if (lo == hi ? fr != v.size() : (fr < lo || fr >= hi)) VF_FAIL("find_rank: ", fr, ", equivalent positions are [", lo, ",", hi, ") of ", v.size());
  if (ix.lower_bound_rank(k, x...) != lo) VF_FAIL("lower_bound_rank: ", ix.lower_bound_rank(k, x...), ", expected ", lo);
  if (ix.upper_bound_rank(k, x...) != hi) VF_FAIL("upper_bound_rank: ", ix.upper_bound_rank(k, x...), ", expected ", hi);
  auto r = ix.equal_range_rank(k, x...);
  if (r.first != lo || r.second != hi) VF_FAIL("equal_range_rank: ", r.first, ",", r.second, ", expected ", lo, ",", hi);
}
template <class Ix, class K, class... X> void lookHsh(Ix& ix, const EV& v, std::size_t lo, std::size_t hi, const K& k, const X&... x) {
  auto f = ix.find(k, x...);
  if (lo == hi) { if (f != ix.end()) VF_FAIL("hashed find: found an element though none is equivalent"); }
  else {
    if (f == ix.end()) VF_FAIL("hashed find: end() though ", hi - lo, " elements are equivalent");
    bool okf = false;
    for (std::size_t j = lo; j < hi; ++j) if (&*f == v[j]->addr) okf = true;
    if (!okf) VF_FAIL("hashed find: returned an element that is not equivalent");
  }
  if (ix.count(k, x...) != hi - lo) VF_FAIL("hashed count: ", ix.count(k, x...), ", expected ", hi - lo);
  if (ix.contains(k, x...) != (hi > lo)) VF_FAIL("hashed contains: wrong");
  auto r = ix.equal_range(k, x...);
  if (lo == hi) { if (r.first != ix.end() || r.second != ix.end()) VF_FAIL("hashed equal_range: should be (end(),end())"); }
  else { chkIt(ix, r.first, v, lo, "hashed equal_range.first"); chkIt(ix, r.second, v, hi, "hashed equal_range.second"); }
}
void op_LOOK(const Op& o) {
  if constexpr (has(G_LOOK)) {
    int s = slot(o.a[0]);
    int i = pickI(o.a[1], s, M_KEY);
    if (i < 0) return;
    on<M_KEY>(s, i, [&](auto&, auto& ixm, auto Ic, auto Kc) {
      constexpr int I = decltype(Ic)::value; constexpr Kind K = decltype(Kc)::value;
      const auto& ix = ixm;
      const EV& v = M[s].ord[I];
      int S = sel(s, I), D = S == 0 ? Da : S == 1 ? Db : Dc;
      const IS& st = M[s].st[I];
      int k = (o.a[3] % 3 && !v.empty()) ? std::max(0, key(v[o.a[2] % v.size()], S) + int(o.a[3] / 3 % 3) - 1) : int(o.a[2] % uint32_t(D + 2));
      std::size_t lo, hi;
      bool threwq = false;
      auto guard = [&](auto f) { call(STRONG, f); if (threw) threwq = true; };
      if constexpr (kOrd(K)) {
        typedef std::function<bool(El*)> P;
        if (o.a[4] % 4 == 2) {
          int w = cls(st, k) / 4;
          auto c4 = [&](El* e) { return cls(st, key(e, S)) / 4; };
          bounds<P>(v, [&](El* e) { return st.desc ? w < c4(e) : c4(e) < w; }, [&](El* e) { return st.desc ? c4(e) < w : w < c4(e); }, lo, hi);
          guard([&] { lookOrd(ix, v, lo, hi, CoarseK{w}); if constexpr (kRnk(K)) lookRnk(ix, v, lo, hi, CoarseK{w}); });
          if (hi > lo + 1) VF_HIT_G(G_LOOK, "compatible key selects several classes");
        }
        else {
          bounds<P>(v, [&](El* e) { return klt(st, key(e, S), k); }, [&](El* e) { return klt(st, k, key(e, S)); }, lo, hi);
          if (o.a[4] % 4 == 3) { CompatCmp cc{Cmp(st.desc, st.coarse)}; long lk = k; guard([&] { lookOrd(ix, v, lo, hi, lk, cc); if constexpr (kRnk(K)) lookRnk(ix, v, lo, hi, lk, cc); }); }
          else if (o.a[4] % 4 == 1) guard([&] { lookOrd(ix, v, lo, hi, CK{k}); if constexpr (kRnk(K)) lookRnk(ix, v, lo, hi, CK{k}); });
          else guard([&] { lookOrd(ix, v, lo, hi, k); if constexpr (kRnk(K)) lookRnk(ix, v, lo, hi, k); });
          if (hi > lo + 1) VF_HIT_G(G_LOOK, "lookup with several equivalents"); else if (hi == lo && lo > 0 && lo < v.size()) VF_HIT_G(G_LOOK, "lookup of an absent key between elements");
        }
      }
      else {
        lo = 0; while (lo < v.size() && !keq(st, key(v[lo], S), k)) ++lo;
        hi = lo; while (hi < v.size() && keq(st, key(v[hi], S), k)) ++hi;
        if (lo == v.size()) hi = lo;
        if (o.a[4] % 3 == 2) { CompatHash ch{Hsh(st.coarse, st.hmode)}; CompatEq ce{Eq(st.coarse)}; long lk = k; guard([&] { lookHsh(ix, v, lo, hi, lk, ch, ce); }); }
        else if (o.a[4] % 3 == 1) guard([&] { lookHsh(ix, v, lo, hi, CK{k}); });
        else guard([&] { lookHsh(ix, v, lo, hi, k); });
        if (hi > lo + 1) VF_HIT_G(G_LOOK, "hashed lookup with several equivalents");
        else if (st.hmode == 1 || st.hmode == 2) VF_HIT_G(G_LOOK, "hashed lookup among colliding keys");
      }
      if (threwq) strong({s});
    });
  }
}
void op_RANGE(const Op& o) {
  if constexpr (has(G_LOOK)) {
    int s = slot(o.a[0]);
    int i = pickI(o.a[1], s, M_ORD);
    if (i < 0) return;
    on<M_ORD>(s, i, [&](auto&, auto& ixm, auto Ic, auto Kc) {
      constexpr int I = decltype(Ic)::value; constexpr Kind K = decltype(Kc)::value;
      const auto& ix = ixm;
      const EV& v = M[s].ord[I];
      int S = sel(s, I), D = S == 0 ? Da : S == 1 ? Db : Dc;
      const IS& st = M[s].st[I];
      int x = int(o.a[2] % uint32_t(D + 2)), y = o.a[3] % 3 ? x + int(o.a[3] % 7) - 2 : int(o.a[3] % uint32_t(D + 2));
      if (y < 0) y = 0;
      int lk = int(o.a[4] % 3), uk = int(o.a[4] / 3 % 3);
      auto lowp = [&](int k) { return lk == 0 ? !klt(st, k, x) : klt(st, x, k); };
      auto upp = [&](int k) { return uk == 0 ? !klt(st, y, k) : klt(st, k, y); };
      std::size_t lo = 0, hi = v.size();
      if (lk != 2) { lo = 0; while (lo < v.size() && !lowp(key(v[lo], S))) ++lo; }
      if (uk != 2) { hi = 0; while (hi < v.size() && upp(key(v[hi], S))) ++hi; }
      bool inverted = hi < lo;
      if (inverted) hi = lo;
      auto go = [&](auto l, auto u) {
        call(STRONG, [&] {
          auto r = ix.range(l, u);
          chkIt(ix, r.first, v, lo, "range.first");
          chkIt(ix, r.second, v, hi, "range.second");
          if constexpr (kRnk(K)) {
            auto q = ix.range_rank(l, u);
            if (q.first != lo || q.second != hi) VF_FAIL("range_rank: ", q.first, ",", q.second, ", expected ", lo, ",", hi);
          }
        });
      };
      auto fl = [&](const int& k) { fp(F_PRED); return lowp(k); };
      auto fu = [&](const int& k) { fp(F_PRED); return upp(k); };
      if (lk == 2 && uk == 2) go(bmi::unbounded, bmi::unbounded);
      else if (lk == 2) go(bmi::unbounded, fu);
      else if (uk == 2) go(fl, bmi::unbounded);
      else go(fl, fu);
      if (threw) strong({s});
      if (inverted) VF_HIT_G(G_LOOK, "inverted range"); else if (hi > lo && (lo > 0 || hi < v.size())) VF_HIT_G(G_LOOK, "proper subrange");
    });
  }
}

// ---------------------------------------------------------------- replace / modify
struct V3 { int a, b, c; };
V3 mutate(const El* e, int s, uint32_t x, uint32_t how) {
  El* t = mkv(x);
  V3 v{t->a, t->b, t->c};
  V3 old{e->a, e->b, e->c};
  switch (how % 6) {
    case 0: break;                                        // everything
    case 1: v.b = old.b; v.c = old.c; break;              // one field
    case 2: v.a = old.a; v.c = old.c; break;
    case 3: v.a = old.a; v.b = old.b; break;
    case 4: v = V3{std::max(0, old.a + int(x % 3) - 1), std::max(0, old.b + int(x / 3 % 3) - 1), std::max(0, old.c + int(x / 9 % 3) - 1)}; break;
    default: {                                            // clash with some element on purpose
      const EV& o = M[s].ord[0];
      if (!o.empty()) { El* y = o[x % o.size()]; if (x / 7 % 2) v.a = y->a; else v.a = old.a; if (x / 14 % 2) v.b = y->b; else v.b = old.b; if (x / 28 % 2) v.c = y->c; else v.c = old.c; }
    }
  }
  return v;
}
static int fv(const V3& v, int S) { return S == 0 ? v.a : S == 1 ? v.b : v.c; }
static V3 cur(const El* e) { return V3{e->a, e->b, e->c}; }
static void setv(El* e, const V3& v) { e->a = v.a; e->b = v.b; e->c = v.c; }
// plan: e gets value v (no clash)
void reseat(Plan& p, int s, El* e, const V3& v) {
  V3 old = cur(e);
  for (int i = 0; i < N; ++i) if (kOrd(kind(s, i))) {
    int S = sel(s, i);
    if (!keq(p.m.st[i], fv(old, S), fv(v, S))) {
      EV& o = p.m.ord[i];
      std::size_t at = std::size_t(posOf(o, e));
      o.erase(o.begin() + at);
      setv(e, v);
      std::size_t hi = upperOf(p.m, s, i, fv(v, S)), lo = lowerOf(p.m, s, i, fv(v, S));
      setv(e, old);
      o.insert(o.begin() + hi, e);
      if (lo != hi) p.flo[i].push_back(e);
      if (at >= lo && at <= hi) VF_HIT_G(G_MOD, "new key fits at the same place of an ordered index");
      else VF_HIT_G(G_MOD, "element moves within an ordered index");
    }
  }
  else if (kHsh(kind(s, i)) && !keq(p.m.st[i], fv(old, sel(s, i)), fv(v, sel(s, i)))) VF_HIT_G(G_MOD, "element changes group in a hashed index");
  setv(e, v);
}
bool wouldClash(int s, El* e, const V3& v) { V3 old = cur(e); setv(e, v); bool r = !clashes(M[s], s, e, e).empty(); setv(e, old); return r; }
void op_REPL(const Op& o) {
  if constexpr (has(G_MOD)) {
    int s = slot(o.a[0]);
    int i = pickI(o.a[1], s, M_ALL);
    if (M[s].ord[0].empty()) return;
    on<M_ALL>(s, i, [&](auto&, auto& ix, auto Ic, auto) {
      constexpr int I = decltype(Ic)::value;
      El* e = M[s].ord[I][o.a[2] % M[s].ord[I].size()];
      V3 old = cur(e), nv = mutate(e, s, o.a[3], o.a[4]);
      bool ok = !wouldClash(s, e, nv), ret = false;
      Plan p(M[s]);
      {
        Val v(e->id, nv.a, nv.b, nv.c);
        auto it = ix.iterator_to(*e->addr);
        call(STRONG, [&] { if (o.a[4] / 6 % 2) ret = ix.replace(it, v); else ret = ix.replace(it, std::move(v)); });
        if (!threw && (it == ix.end() || &*it != e->addr)) VF_FAIL("replace: iterator no longer designates the element");
      }
      if (threw) { strong({s}); return; }
      if (ok) reseat(p, s, e, nv); else { VF_HIT_G(G_MOD, "replace refused"); setv(e, old); }
      done(s, p);
      if (ret != ok) VF_FAIL("replace returned ", ret, ", expected ", ok);
    });
  }
}
struct Mod {
  V3 v;
  void operator()(Val& x) const { faults().phase = 1; fp(F_MOD); x.a = v.a; x.b = v.b; x.c = v.c; fp(F_MOD); faults().phase = 2; ++faults().modcalls; }
};
struct Back {
  V3 v;
  void operator()(Val& x) const { faults().phase = 3; fp(F_MOD); x.a = v.a; x.b = v.b; x.c = v.c; fp(F_MOD); faults().phase = 4; ++faults().backcalls; }
};
struct ModK {
  int v;
  void operator()(int& x) const { faults().phase = 1; fp(F_MOD); x = v; fp(F_MOD); faults().phase = 2; ++faults().modcalls; }
};
struct BackK {
  int v;
  void operator()(int& x) const { faults().phase = 3; fp(F_MOD); x = v; fp(F_MOD); faults().phase = 4; ++faults().backcalls; }
};
void startMod() { faults().phase = 0; faults().fired_phase = 0; faults().modcalls = faults().backcalls = 0; }
// after modify without rollback
void afterModify(int s, El* e, const V3& nv, bool ok, bool ret) {
  Plan p(M[s]);
  if (threw) {  // documented: exactly the element is erased
    V3 old = cur(e);
    if (!e->destroyed) VF_FAIL("modify let an exception out but did not erase the element");
    setv(e, old);
    drop(p, e);
    forget();
    done(s, p);
    return;
  }
  if (faults().modcalls != 1) VF_FAIL("modify called the modifier ", faults().modcalls, " times");
  if (ok) reseat(p, s, e, nv); else { VF_HIT_G(G_MOD, "modify erases a clashing element"); drop(p, e); }
  done(s, p);
  if (ret != ok) VF_FAIL("modify returned ", ret, ", expected ", ok);
}
// 0: must be erased, 1: must be kept in place, 2: either
int rollbackVerdict(int s, El* e, const V3& orig, const V3& bv) {
  bool amb = false;
  for (int i = 0; i < N; ++i) {
    Kind k = kind(s, i);
    if (!kKey(k)) continue;
    int S = sel(s, i);
    const IS& st = M[s].st[i];
    if (keq(st, fv(orig, S), fv(bv, S))) continue;
    if (kOrd(k)) {
      const EV& o = M[s].ord[i];
      std::size_t at = std::size_t(posOf(o, e));
      int x = fv(bv, S);
      if (at > 0) { int y = key(o[at - 1], S); if (kUnq(k) ? !klt(st, y, x) : klt(st, x, y)) return 0; }
      if (at + 1 < o.size()) { int y = key(o[at + 1], S); if (kUnq(k) ? !klt(st, x, y) : klt(st, y, x)) return 0; }
    }
    else {
      if (kUnq(k)) for (El* y : M[s].ord[i]) if (y != e && keq(st, key(y, S), fv(bv, S))) return 0;
      amb = true;
    }
  }
  return amb ? 2 : 1;
}
void afterModifyRb(int s, El* e, const V3& nv, const V3& bv, bool ok, bool ret) {
  V3 orig = cur(e);
  Plan p(M[s]);
  bool exact = bv.a == orig.a && bv.b == orig.b && bv.c == orig.c;
  auto keepOrErase = [&](int verdict) {
    bool gone = e->destroyed;
    if (verdict == 0 && !gone) VF_FAIL("element kept though rollback did not leave it consistent");
    if (verdict == 1 && gone) VF_FAIL("element erased though rollback restored it");
    if (gone) { drop(p, e); VF_HIT_G(G_MOD, "rollback leaves an inconsistent value: erased"); }
    else { setv(e, bv); VF_HIT_G(G_MOD, "rollback restores the element"); }
    forget();
    done(s, p);
  };
  if (threw) {
    if (faults().fired_phase == 2) {
      VF_HIT_G(G_MOD, "exception during re-seating, rollback invoked");
      keepOrErase(exact ? 1 : rollbackVerdict(s, e, orig, bv));
    }
    else if (faults().fired_phase == 4)  // rolled back, but whether the value is back in place could not be determined
      keepOrErase(!exact && rollbackVerdict(s, e, orig, bv) == 0 ? 0 : 2);
    else {
      if (!e->destroyed) VF_FAIL("exception in modifier or rollback, but the element was not erased");
      forget(); drop(p, e); done(s, p);
    }
    return;
  }
  if (faults().modcalls != 1) VF_FAIL("modify called the modifier ", faults().modcalls, " times");
  if (faults().backcalls != (ok ? 0 : 1)) VF_FAIL("rollback called ", faults().backcalls, " times");
  if (ok) { reseat(p, s, e, nv); done(s, p); }
  else keepOrErase(exact ? 1 : rollbackVerdict(s, e, orig, bv));
  if (ret != ok) VF_FAIL("modify with rollback returned ", ret, ", expected ", ok);
}
void op_MODI(const Op& o) {
  if constexpr (has(G_MOD)) {
    int s = slot(o.a[0]);
    int i = pickI(o.a[1], s, M_ALL);
    if (M[s].ord[0].empty()) return;
    on<M_ALL>(s, i, [&](auto&, auto& ix, auto Ic, auto) {
      constexpr int I = decltype(Ic)::value;
      El* e = M[s].ord[I][o.a[2] % M[s].ord[I].size()];
      V3 nv = mutate(e, s, o.a[3], o.a[4]);
      bool ok = !wouldClash(s, e, nv), ret = false;
      startMod();
      auto it = ix.iterator_to(*e->addr);
      call(BASIC, [&] { ret = ix.modify(it, Mod{nv}); });
      afterModify(s, e, nv, ok, ret);
      if (ok && !threw && &*it != e->addr) VF_FAIL("modify: iterator no longer designates the element");
    });
  }
}
void op_MODR(const Op& o) {
  if constexpr (has(G_MOD)) {
    int s = slot(o.a[0]);
    int i = pickI(o.a[1], s, M_ALL);
    if (M[s].ord[0].empty()) return;
    on<M_ALL>(s, i, [&](auto&, auto& ix, auto Ic, auto) {
      constexpr int I = decltype(Ic)::value;
      El* e = M[s].ord[I][o.a[2] % M[s].ord[I].size()];
      V3 nv = mutate(e, s, o.a[3], o.a[4]);
      V3 bv = (o.a[4] / 6 % 4) ? cur(e) : mutate(e, s, o.a[3] / 5 + 3, o.a[4] / 24);
      bool ok = !wouldClash(s, e, nv), ret = false;
      startMod();
      auto it = ix.iterator_to(*e->addr);
      call(BASIC, [&] { ret = ix.modify(it, Mod{nv}, Back{bv}); });
      afterModifyRb(s, e, nv, bv, ok, ret);
      if (!e->destroyed && &*it != e->addr) VF_FAIL("modify: iterator no longer designates the element");
    });
  }
}
void op_MODK(const Op& o) {
  if constexpr (has(G_MOD)) {
    int s = slot(o.a[0]);
    int i = pickI(o.a[1], s, M_KEY);
    if (i < 0 || M[s].ord[0].empty()) return;
    on<M_KEY>(s, i, [&](auto&, auto& ix, auto Ic, auto) {
      constexpr int I = decltype(Ic)::value;
      El* e = M[s].ord[I][o.a[2] % M[s].ord[I].size()];
      V3 m = mutate(e, s, o.a[3], o.a[4]), nv = cur(e);
      int S = sel(s, I), nk = fv(m, S), ok0 = fv(nv, S);
      if (S == 0) nv.a = nk; else if (S == 1) nv.b = nk; else nv.c = nk;
      bool ok = !wouldClash(s, e, nv), ret = false;
      startMod();
      auto it = ix.iterator_to(*e->addr);
      if (o.a[4] / 6 % 2) {
        call(BASIC, [&] { ret = ix.modify_key(it, ModK{nk}); });
        afterModify(s, e, nv, ok, ret);
      }
      else {
        V3 bv = cur(e);
        call(BASIC, [&] { ret = ix.modify_key(it, ModK{nk}, BackK{ok0}); });
        afterModifyRb(s, e, nv, bv, ok, ret);
      }
    });
  }
}

// ---------------------------------------------------------------- hashing policy
void op_REHASH(const Op& o) {
  if constexpr (has(G_HASH)) {
    int s = slot(o.a[0]);
    int i = pickI(o.a[1], s, M_HSH);
    if (i < 0) return;
    on<M_HSH>(s, i, [&](auto&, auto& ix, auto, auto) {
      std::size_t n = o.a[2] % 4 ? o.a[2] % 60 : o.a[2] % 300, before = ix.bucket_count();
      Plan p(M[s]); p.grewAt = i;
      call(STRONG, [&] { ix.rehash(n); });
      if (threw) { strong({s}); return; }
      if (ix.bucket_count() < n) VF_FAIL("rehash(", n, ") left bucket_count() at ", ix.bucket_count());
      done(s, p);
      if (ix.bucket_count() != before && M[s].ord[0].size() > 2) VF_HIT_G(G_HASH, "rehash changes the bucket array");
    });
  }
}
void op_RESERVE(const Op& o) {
  if constexpr (has(G_HASH)) {
    int s = slot(o.a[0]);
    int i = pickI(o.a[1], s, M_HSH);
    if (i < 0) return;
    on<M_HSH>(s, i, [&](auto&, auto& ix, auto, auto) {
      std::size_t n = o.a[2] % 200, before = ix.bucket_count();
      Plan p(M[s]); p.grewAt = i;
      call(STRONG, [&] { ix.reserve(n); });
      if (threw) { strong({s}); return; }
      if (double(ix.bucket_count()) * ix.max_load_factor() * 1.00001 + 1e-6 < double(n)) VF_FAIL("reserve(", n, ") left bucket_count()*max_load_factor() at ", ix.bucket_count(), "*", ix.max_load_factor());
      done(s, p);
      if (ix.bucket_count() != before && M[s].ord[0].size() > 2) VF_HIT_G(G_HASH, "reserve changes the bucket array");
    });
  }
}
void op_MLF(const Op& o) {
  if constexpr (has(G_HASH)) {
    int s = slot(o.a[0]);
    int i = pickI(o.a[1], s, M_HSH);
    if (i < 0) return;
    on<M_HSH>(s, i, [&](auto&, auto& ix, auto, auto) {
      static const float z[] = {1.0f, 0.25f, 0.5f, 2.0f, 3.7f, 16.0f, 0.1f};
      float f = z[o.a[2] % 7];
      Plan p(M[s]);
      ix.max_load_factor(f);
      if (ix.max_load_factor() != f) VF_FAIL("max_load_factor() is ", ix.max_load_factor(), " after setting it to ", f);
      done(s, p);
      VF_HIT_G(G_HASH, "max_load_factor changed");
    });
  }
}

// ---------------------------------------------------------------- list operations within one container
static void moveBefore(EV& v, const EV& what, std::size_t pos) {
  El* at = pos < v.size() ? v[pos] : nullptr;
  EV r;
  for (El* e : v) {
    if (e == at) r.insert(r.end(), what.begin(), what.end());
    if (std::find(what.begin(), what.end(), e) == what.end()) r.push_back(e);
    else if (e == at) VF_FAIL("internal: bad splice plan");
  }
  if (!at) r.insert(r.end(), what.begin(), what.end());
  v = r;
}
template <class F> void listOp(const Op& o, F f) {
  int s = slot(o.a[0]);
  int i = pickI(o.a[1], s, M_LST);
  if (i < 0) return;
  on<M_LST>(s, i, [&](auto& c, auto& ix, auto Ic, auto Kc) {
    constexpr int I = decltype(Ic)::value;
    Plan p(M[s]);
    f(s, c, ix, p, p.m.ord[I], Ic, Kc);
  });
}
void op_SSPL1(const Op& o) { move1(o, false); }
void op_RELOC(const Op& o) { move1(o, true); }
void move1(const Op& o, bool reloc) {
  if constexpr (has(G_SEQ)) listOp(o, [&](int s, auto&, auto& ix, Plan& p, EV& v, auto, auto) {
    if (v.empty()) return;
    std::size_t from = o.a[2] % v.size(), pos = o.a[3] % (v.size() + 1);
    El* e = v[from];
    auto pi = itAt(ix, ix, v, pos), fi = itAt(ix, ix, v, from);
    const Val* got = nullptr; bool second = true;
    call(NOTHROW, [&] {
      if (reloc) { ix.relocate(pi, fi); got = e->addr; }
      else { auto r = ix.splice(pi, ix, fi); got = &*r.first; second = r.second; }
    });
    if (pos != from) { EV w(1, e); if (pos < v.size()) moveBefore(v, w, pos); else { v.erase(v.begin() + from); v.push_back(e); } }
    done(s, p);
    if (got != e->addr || !second) VF_FAIL("splice within a container: wrong return value");
    if (pos != from && pos != from + 1) VF_HIT_G(G_SEQ, "element moved within the list");
  });
}
void op_SSPLR(const Op& o) {
  if constexpr (has(G_SEQ)) {
    if (o.a[4] % 3 == 0) { spliceOtherIndex(o); return; }
    moveR(o, false);
  }
}
void op_RELOCR(const Op& o) { if constexpr (has(G_SEQ)) moveR(o, true); }
void moveR(const Op& o, bool reloc) {
  if constexpr (has(G_SEQ)) listOp(o, [&](int s, auto&, auto& ix, Plan& p, EV& v, auto, auto) {
    std::size_t n = v.size(), f = o.a[2] % (n + 1), l = std::min(n, f + o.a[3] % 7), pos = (o.a[4] / 3) % (n + 1);
    if (pos >= f && pos < l) pos = (o.a[4] & 1) ? l : 0;
    if (pos >= f && pos < l) pos = l;
    EV w(v.begin() + f, v.begin() + l);
    auto pi = itAt(ix, ix, v, pos), fi = itAt(ix, ix, v, f), li = itAt(ix, ix, v, l);
    call(NOTHROW, [&] { if (reloc) ix.relocate(pi, fi, li); else if (pos == n && f == 0 && l == n && (o.a[2] / 64) % 2) ix.splice(pi, ix); else ix.splice(pi, ix, fi, li); });
    moveBefore(v, w, pos);
    done(s, p);
    if (w.size() > 1 && pos != f && pos != l) VF_HIT_G(G_SEQ, "range moved within the list");
  });
}
// splice a range of another index of the same container
void spliceOtherIndex(const Op& o) {
  if constexpr (has(G_SEQ) && N > 1) listOp(o, [&](int s, auto& c, auto& ix, Plan& p, EV& v, auto Ic, auto) {
    constexpr int I = decltype(Ic)::value, J = (I + 1) % N;
    auto& jx = c.template get<J>();
    const EV& w0 = M[s].ord[J];
    std::size_t n = v.size(), f = o.a[2] % (n + 1), l = std::min(n, f + o.a[3] % 7), pos = (o.a[4] / 3) % (n + 1);
    EV w(w0.begin() + f, w0.begin() + l);
    while (pos < n && std::find(w.begin(), w.end(), v[pos]) != w.end()) ++pos;
    auto pi = itAt(ix, ix, v, pos);
    auto fi = itAt(jx, jx, w0, f), li = itAt(jx, jx, w0, l);
    call(NOTHROW, [&] { ix.splice(pi, jx, fi, li); });
    moveBefore(v, w, pos);
    done(s, p);
    if (w.size() > 1) VF_HIT_G(G_SEQ, "range of another index spliced within the container");
  });
}
void op_REMIF(const Op& o) {
  if constexpr (has(G_SEQ)) listOp(o, [&](int s, auto&, auto& ix, Plan& p, EV& v, auto Ic, auto) {
    int m = 2 + int(o.a[2] % 4), r = int(o.a[3] % 4);
    EV d;
    for (El* e : v) if ((e->a + e->b) % m == r) d.push_back(e);
    if (d.size() > 6 && o.a[4] % 3) return;
    for (El* e : d) drop(p, e);
    call(BASIC, [&] { ix.remove_if([=](const Val& x) { x.chk(); fp(F_PRED); return (x.a + x.b) % m == r; }); });
    if (threw) { basic({s}, false, decltype(Ic)::value); return; }
    if (!d.empty() && !v.empty()) VF_HIT_G(G_SEQ, "remove_if removes some");
    done(s, p);
  });
}
void op_REMV(const Op& o) {
  if constexpr (has(G_SEQ)) listOp(o, [&](int s, auto&, auto& ix, Plan& p, EV& v, auto Ic, auto) {
    if (v.empty()) return;
    El* t = v[o.a[2] % v.size()];
    V3 x = cur(t);
    if (o.a[3] % 4 == 0) x.c = int(o.a[4] % uint32_t(Dc));
    EV d;
    for (El* e : v) if (e->a == x.a && e->b == x.b && e->c == x.c) d.push_back(e);
    for (El* e : d) drop(p, e);
    {
      Val val0(0, x.a, x.b, x.c);
      call(BASIC, [&] { ix.remove(val0); });
    }
    if (threw) { basic({s}, false, decltype(Ic)::value); return; }
    if (d.size() > 1) VF_HIT_G(G_SEQ, "remove(value) removes several");
    done(s, p);
  });
}
void op_UNIQ(const Op& o) {
  if constexpr (has(G_SEQ)) listOp(o, [&](int s, auto&, auto& ix, Plan& p, EV& v, auto Ic, auto) {
    bool byPred = o.a[2] % 2;
    int m = 1 + int(o.a[3] % 4);
    EV old = v, d;
    El* keep = nullptr;
    for (El* e : old) {
      if (keep && (byPred ? keep->a / m == e->a / m : (keep->a == e->a && keep->b == e->b && keep->c == e->c))) d.push_back(e);
      else keep = e;
    }
    if (d.size() > 8 && o.a[4] % 3) return;
    for (El* e : d) drop(p, e);
    std::map<const Val*, std::size_t> at;
    for (std::size_t k = 0; byPred && k < old.size(); ++k) at[old[k]->addr] = k;
    bool order = true;  // documented: binary_pred(*i,*(i-1)), i.e. the later element comes first
    call(BASIC, [&] {
      if (byPred) ix.unique([&](const Val& x, const Val& y) {
        x.chk(); y.chk();
        auto ax = at.find(&x), ay = at.find(&y);
        if (ax == at.end() || ay == at.end() || ax->second <= ay->second) order = false;
        fp(F_PRED);
        return x.a / m == y.a / m;
      });
      else ix.unique();
    });
    if (!order) VF_FAIL("unique(pred) called pred with arguments that are not (*i,*(i-1))");
    if (threw) { basic({s}, false, decltype(Ic)::value); return; }
    if (!d.empty()) VF_HIT_G(G_SEQ, "unique removes some");
    done(s, p);
  });
}
struct ByB { int desc; bool operator()(const Val& x, const Val& y) const { x.chk(); y.chk(); fp(F_CMP); return desc ? y.b < x.b : x.b < y.b; } };
void op_SORT(const Op& o) {
  if constexpr (has(G_SEQ)) listOp(o, [&](int s, auto&, auto& ix, Plan& p, EV& v, auto Ic, auto) {
    int var = int(o.a[2] % 3);
    EV old = v;
    if (var == 0) std::stable_sort(v.begin(), v.end(), [](El* x, El* y) { return x->a < y->a; });
    else std::stable_sort(v.begin(), v.end(), [&](El* x, El* y) { return var == 2 ? y->b < x->b : x->b < y->b; });
    call(BASIC, [&] { if (var == 0) ix.sort(); else ix.sort(ByB{var == 2}); });
    if (threw) { basic({s}, true, decltype(Ic)::value); return; }
    if (v != old) VF_HIT_G(G_SEQ, "sort changes the order");
    done(s, p);
  });
}
void op_REV(const Op& o) {
  if constexpr (has(G_SEQ)) listOp(o, [&](int s, auto&, auto& ix, Plan& p, EV& v, auto, auto) {
    std::reverse(v.begin(), v.end());
    call(NOTHROW, [&] { ix.reverse(); });
    if (v.size() > 1) VF_HIT_G(G_SEQ, "reversed");
    done(s, p);
  });
}
void op_REARR(const Op& o) {
  if constexpr (has(G_SEQ)) listOp(o, [&](int s, auto&, auto& ix, Plan& p, EV& v, auto, auto) {
    Rng r(o.a[2]);
    if (o.a[3] % 3 == 0) { if (v.size() > 1) std::rotate(v.begin(), v.begin() + 1, v.end()); }
    else for (std::size_t k = v.size(); k > 1; --k) if (o.a[3] % 3 == 1 || r.chance(1, 3)) std::swap(v[k - 1], v[r.below(uint32_t(k))]);
    std::vector<std::reference_wrapper<const Val>> view;
    for (El* e : v) view.push_back(std::cref(*e->addr));
    call(BASIC, [&] { ix.rearrange(view.begin()); });
    if (v.size() > 2) VF_HIT_G(G_SEQ, "rearranged");
    done(s, p);
  });
}
// ---------------------------------------------------------------- random access specifics
void op_RCAP(const Op& o) {
  if constexpr (has(G_RND)) {
    int s = slot(o.a[0]);
    int i = pickI(o.a[1], s, kb(RA));
    if (i < 0) return;
    on<kb(RA)>(s, i, [&](auto&, auto& ix, auto, auto) {
      std::size_t before = ix.capacity(), n = o.a[3] % 3 == 0 ? before + o.a[2] % 30 : o.a[3] % 3 == 1 ? o.a[2] % 100 : ix.size() + o.a[2] % 3;
      Plan p(M[s]);
      call(STRONG, [&] { ix.reserve(n); });
      if (threw) { strong({s}); return; }
      if (ix.capacity() < n) VF_FAIL("reserve(", n, ") left capacity() at ", ix.capacity());
      if (ix.capacity() < before) VF_FAIL("reserve reduced capacity()");
      if (ix.capacity() != before) VF_HIT_G(G_RND, "reserve changes capacity");
      done(s, p);
    });
  }
}
void op_RSHR(const Op& o) {
  if constexpr (has(G_RND)) {
    int s = slot(o.a[0]);
    int i = pickI(o.a[1], s, kb(RA));
    if (i < 0) return;
    on<kb(RA)>(s, i, [&](auto&, auto& ix, auto, auto) {
      std::size_t before = ix.capacity();
      Plan p(M[s]);
      call(STRONG, [&] { ix.shrink_to_fit(); });
      if (threw) { strong({s}); return; }
      if (ix.capacity() != ix.size()) VF_FAIL("shrink_to_fit left capacity() at ", ix.capacity(), " with size() ", ix.size());
      if (ix.capacity() != before) VF_HIT_G(G_RND, "shrink_to_fit changes capacity");
      done(s, p);
    });
  }
}
void op_RAT(const Op& o) {
  if constexpr (has(G_RND)) {
    int s = slot(o.a[0]);
    int i = pickI(o.a[1], s, kb(RA));
    if (i < 0) return;
    on<kb(RA)>(s, i, [&](auto&, auto& ixm, auto Ic, auto) {
      constexpr int I = decltype(Ic)::value;
      const auto& ix = ixm;
      const EV& v = M[s].ord[I];
      std::size_t n = o.a[2] % (v.size() + 3);
      bool thrown = false;
      try { const Val& x = ix.at(n); if (n >= v.size() || &x != v[n]->addr) VF_FAIL("at(", n, ") is wrong"); }
      catch (const std::out_of_range&) { thrown = true; }
      if (thrown != (n >= v.size())) VF_FAIL("at(", n, ") ", thrown ? "threw" : "did not throw", " with size() ", v.size());
      if (thrown) VF_HIT_G(G_RND, "at() out of range");
      std::size_t x = o.a[3] % (v.size() + 1), y = o.a[4] % (v.size() + 1);
      auto ix1 = itAt(ix, ix, v, x), ix2 = itAt(ix, ix, v, y);
      std::ptrdiff_t d = std::ptrdiff_t(y) - std::ptrdiff_t(x);
      if (ix2 - ix1 != d) VF_FAIL("iterator difference is ", ix2 - ix1, ", expected ", d);
      if (ix1 + d != ix2 || ix2 - d != ix1) VF_FAIL("iterator arithmetic is wrong");
      auto t = ix1; t += d; if (t != ix2) VF_FAIL("iterator += is wrong");
      t -= d; if (t != ix1) VF_FAIL("iterator -= is wrong");
      if ((ix1 < ix2) != (x < y) || (ix1 > ix2) != (x > y) || (ix1 <= ix2) != (x <= y) || (ix1 >= ix2) != (x >= y) || (ix1 == ix2) != (x == y)) VF_FAIL("iterator comparison is wrong");
      if (y < v.size() && &ix1[d] != v[y]->addr) VF_FAIL("iterator[n] is wrong");
      if (x < v.size()) { auto q = ix1; if (q++ != ix1 || &*(q - 1) != v[x]->addr) VF_FAIL("iterator post-increment is wrong"); }
      if (d) VF_HIT_G(G_RND, "iterator arithmetic over a distance");
    });
  }
}

// ---------------------------------------------------------------- between containers: splice and merge
// plan the transfer of es (in order) from ss to sd at position pos of index I (or -1: by key)
struct Xfer { int moved = 0, left = 0; };
Xfer planXfer(Plan& pd, int sd, Plan& ps, const EV& es, int I, std::size_t pos, bool copyMode) {
  Xfer x;
  for (El* e : es) {
    if (!clashes(pd.m, sd, e).empty()) { ++x.left; continue; }
    El* t = e;
    if (copyMode) { t = clone(e); expectNew(t); }
    place(pd, sd, t, I, pos + std::size_t(x.moved), false, true);
    if (copyMode) drop(ps, e); else unplace(ps, e);
    ++x.moved;
  }
  if (x.left && x.moved) VF_HIT_G(G_XSEQ | G_XMERGE, "transfer with some elements banned");
  else if (x.left) VF_HIT_G(G_XSEQ | G_XMERGE, "transfer with all elements banned");
  else if (x.moved) VF_HIT_G(G_XSEQ | G_XMERGE, "transfer of elements");
  return x;
}
template <unsigned MASK, class F> void pairOp(const Op& o, F f) {
  int sd = slot(o.a[0]), ss = slot(o.a[0] / 8);
  if (sd == ss) ss = (ss + 1) % NS;
  int i = pickI(o.a[1], sd, MASK);
  if (i < 0) return;
  on<MASK>(sd, i, [&](auto& cd, auto& id, auto Ic, auto Kc) {
    constexpr int I = decltype(Ic)::value;
    withC(ss, [&](auto& cs, auto) {
      Plan pd(M[sd]), ps(M[ss]);
      if (N > 1 && o.a[1] / 8 % 3 == 0) {
        constexpr int J = (I + 1) % N;
        f(sd, ss, cd, cs, id, cs.template get<J>(), pd, ps, Ic, std::integral_constant<int, J>(), Kc);
      }
      else f(sd, ss, cd, cs, id, cs.template get<I>(), pd, ps, Ic, Ic, Kc);
    });
  });
}
void op_XSPLA(const Op& o) { xsplice(o, 0); }
void op_XSPL1(const Op& o) { xsplice(o, 1); }
void op_XSPLR(const Op& o) { xsplice(o, 2); }
void xsplice(const Op& o, int mode) {
  if constexpr (has(G_XSEQ)) pairOp<M_LST>(o, [&](int sd, int ss, auto& cd, auto& cs, auto& id, auto& is, Plan& pd, Plan& ps, auto Ic, auto Jc, auto) {
    constexpr int I = decltype(Ic)::value, J = decltype(Jc)::value;
    const EV& src = M[ss].ord[J];
    std::size_t f = 0, l = src.size();
    if (mode == 1) { if (src.empty()) return; f = o.a[2] % src.size(); l = f + 1; }
    if (mode == 2) { f = o.a[2] % (src.size() + 1); l = std::min(src.size(), f + o.a[3] % 6); }
    EV es(src.begin() + f, src.begin() + l);
    std::size_t pos = o.a[4] % (M[sd].ord[I].size() + 1);
    bool copyMode = cd.get_allocator() != cs.get_allocator();
    EV cl = es.empty() ? EV() : clashes(M[sd], sd, es[0]);
    Xfer x = planXfer(pd, sd, ps, es, I, pos, copyMode);
    if (copyMode && x.moved) VF_HIT_G(G_XSEQ, "splice between unequal allocators");
    bool second = false; const Val* got = nullptr;
    auto pi = itAt(id, id, M[sd].ord[I], pos);
    auto fi = itAt(is, is, src, f), li = itAt(is, is, src, l);
    call(mode == 1 ? STRONG : BASIC, [&] {
      if (mode == 0) { if (o.a[2] % 2) id.splice(pi, is); else id.splice(pi, std::move(is)); }
      else if (mode == 1) { auto r = id.splice(pi, is, fi); second = r.second; got = r.first == id.end() ? nullptr : &*r.first; }
      else id.splice(pi, is, fi, li);
    });
    if (threw) { if (mode == 1) strong({sd, ss}); else basic({sd, ss}, !copyMode, -1); return; }
    El* n0 = x.moved ? pd.m.ord[I][pos] : nullptr;
    finish({{sd, &pd}, {ss, &ps}});
    if (mode == 1) {
      if (second != (x.moved == 1)) VF_FAIL("splice of one element: success is ", second, ", expected ", x.moved == 1);
      if (x.moved ? got != n0->addr : (!got || !in(cl, got->tag))) VF_FAIL("splice of one element: wrong iterator returned");
    }
  });
}
void op_LMERGE(const Op& o) {
  if constexpr (has(G_XSEQ)) {
    int sd = int(o.a[0] % NA), ss = int((o.a[0] / 8) % NA);
    int i = pickI(o.a[1], sd, M_LST);
    if (i < 0) return;
    on<M_LST>(sd, i, [&](auto& cd, auto& id, auto Ic, auto) {
      if constexpr (std::is_same<std::remove_reference_t<decltype(cd)>, CA>::value) {
        constexpr int I = decltype(Ic)::value;
        int var = int(o.a[2] % 3);
        auto& is = A[ss]->template get<I>();
        auto lt = [&](El* x, El* y) { return var == 0 ? x->a < y->a : var == 1 ? x->b < y->b : y->b < x->b; };
        for (int k = 0; k < 2; ++k) {  // precondition: both sorted
          int s = k ? ss : sd;
          auto& ix = k ? is : id;
          Plan p(M[s]);
          std::stable_sort(p.m.ord[I].begin(), p.m.ord[I].end(), lt);
          if (var == 0) ix.sort(); else ix.sort(ByB{var == 2});
          done(s, p);
        }
        Plan pd(M[sd]), ps(M[ss]);
        bool copyMode = cd.get_allocator() != A[ss]->get_allocator();
        if (sd != ss) {
          EV src = M[ss].ord[I];
          Xfer x = planXfer(pd, sd, ps, src, -1, 0, copyMode);
          std::stable_sort(pd.m.ord[I].begin(), pd.m.ord[I].end(), lt);  // old ones first among equivalents: they precede in pd
          if (x.moved > 1 && M[sd].ord[0].size() > 1) VF_HIT_G(G_XSEQ, "merge of two non-trivial lists");
        }
        call(sd == ss ? NOTHROW : BASIC, [&] { if (var == 0) id.merge(is); else id.merge(is, ByB{var == 2}); });
        if (threw) { basic({sd, ss}, !copyMode, I); return; }
        if (sd == ss) done(sd, pd); else finish({{sd, &pd}, {ss, &ps}});
      }
    });
  }
}
void op_MRGA(const Op& o) { xmerge(o, 0); }
void op_MRG1(const Op& o) { xmerge(o, 1); }
void op_MRGR(const Op& o) { xmerge(o, 2); }
void xmerge(const Op& o, int mode) {
  if constexpr (has(G_XMERGE)) {
    if (o.a[4] % 8 == 7) { selfMerge(o, mode); return; }
    pairOp<M_KEY>(o, [&](int sd, int ss, auto& cd, auto& cs, auto& id, auto& is, Plan& pd, Plan& ps, auto, auto Jc, auto) {
      constexpr int J = decltype(Jc)::value;
      if (cd.get_allocator() != cs.get_allocator()) return;  // precondition
      const EV& src = M[ss].ord[J];
      std::size_t f = 0, l = src.size();
      if (mode == 1) { if (src.empty()) return; f = o.a[2] % src.size(); l = f + 1; }
      if (mode == 2) { f = o.a[2] % (src.size() + 1); l = std::min(src.size(), f + o.a[3] % 6); }
      EV es(src.begin() + f, src.begin() + l);
      EV cl = es.empty() ? EV() : clashes(M[sd], sd, es[0]);
      Xfer x = planXfer(pd, sd, ps, es, -1, 0, false);
      bool second = false; const Val* got = nullptr;
      auto fi = itAt(is, is, src, f), li = itAt(is, is, src, l);
      call(mode == 1 ? STRONG : BASIC, [&] {
        if (mode == 0) { if (o.a[2] % 2) id.merge(is); else id.merge(std::move(is)); }
        else if (mode == 1) { auto r = id.merge(is, fi); second = r.second; got = r.first == id.end() ? nullptr : &*r.first; }
        else id.merge(is, fi, li);
      });
      if (threw) { if (mode == 1) strong({sd, ss}); else basic({sd, ss}, true, -1); return; }
      finish({{sd, &pd}, {ss, &ps}});
      if (mode == 1) {
        if (second != (x.moved == 1)) VF_FAIL("merge of one element: success is ", second, ", expected ", x.moved == 1);
        if (x.moved ? got != es[0]->addr : (!got || !in(cl, got->tag))) VF_FAIL("merge of one element: wrong iterator returned");
      }
    });
  }
}
void selfMerge(const Op& o, int mode) {
  if constexpr (has(G_XMERGE)) {
    int s = slot(o.a[0]);
    int i = pickI(o.a[1], s, M_KEY);
    if (i < 0) return;
    on<M_KEY>(s, i, [&](auto&, auto& ix, auto Ic, auto) {
      constexpr int I = decltype(Ic)::value;
      Plan p(M[s]);
      const EV& v = M[s].ord[I];
      if (mode == 0) ix.merge(ix);
      else if (mode == 1) { if (v.empty()) return; std::size_t k = o.a[2] % v.size(); auto r = ix.merge(ix, itAt(ix, ix, v, k)); if (!r.second || &*r.first != v[k]->addr) VF_FAIL("merge of an element with its own container: wrong return value"); }
      else ix.merge(ix, itAt(ix, ix, v, 0), itAt(ix, ix, v, v.size()));
      done(s, p);
    });
  }
}

// ---------------------------------------------------------------- copy, move, assignment, swap
MC cloneMC(const MC& src, Plan& p) {
  std::unordered_map<El*, El*> mp;
  for (El* e : src.ord[0]) { El* t = clone(e); mp[e] = t; expectNew(t); }
  MC m = src;
  for (int i = 0; i < N; ++i) for (auto& e : m.ord[i]) e = mp[e];
  (void)p;
  return m;
}
template <int... I> void readStates(CA& c, MC& m, std::integer_sequence<int, I...>) {
  auto one = [&](auto Ic) {
    constexpr int K = decltype(Ic)::value;
    const auto& ix = static_cast<const CA&>(c).template get<K>();
    if constexpr (kOrd(LA::kind[K])) { auto q = ix.key_comp(); m.st[K].desc = q.desc; m.st[K].coarse = q.coarse; }
    else if constexpr (kHsh(LA::kind[K])) { auto h = ix.hash_function(); m.st[K].coarse = h.coarse; m.st[K].hmode = h.mode; }
    (void)ix;
  };
  (void)std::initializer_list<int>{(one(std::integral_constant<int, I>()), 0)...};
}
void readStates(CA& c, MC& m) { readStates(c, m, std::make_integer_sequence<int, N>()); m.alloc = c.get_allocator().id; }
// every index of a copied container enumerates in exactly the given order (hashed ones too)
template <int I = 0> void exactOrder(int s, const MC& m) {
  if constexpr (I < N) {
    EV act = walk(static_cast<const CA&>(*A[s]).template get<I>(), m.ord[I].size() + 2);
    if (act != m.ord[I]) VF_FAIL("index ", I, ": order is not preserved by copying/moving: ", str(act), " expected ", str(m.ord[I]));
    exactOrder<I + 1>(s, m);
  }
}
static constexpr bool POCCA = std::allocator_traits<Alloc>::propagate_on_container_copy_assignment::value;
static constexpr bool POCMA = std::allocator_traits<Alloc>::propagate_on_container_move_assignment::value;
static constexpr bool POCS = std::allocator_traits<Alloc>::propagate_on_container_swap::value;
static constexpr bool ALEQ = std::allocator_traits<Alloc>::is_always_equal::value;
void op_CCPY(const Op& o) {
  if constexpr (has(G_COPY)) {
    int d = int(o.a[0] % NA), s = int(o.a[0] / 8 % NA);
    bool withAl = o.a[1] % 2;
    int al = withAl ? allocOf(o.a[2]) : M[s].alloc;
    Plan p(M[d]);
    p.dead = M[d].ord[0];
    p.m = cloneMC(M[s], p); p.m.alloc = al;
    MC exp = p.m;
    std::unique_ptr<CA> n;
    call(STRONG, [&] { if (withAl) n.reset(new CA(static_cast<const CA&>(*A[s]), Alloc(al))); else n.reset(new CA(static_cast<const CA&>(*A[s]))); });
    if (threw) { strong({d, s}); return; }
    if constexpr (has(G_ITER)) dropRet(d, false);
    A[d].swap(n);
    n.reset();
    exactOrder(d, exp);
    Plan ps(M[s]);
    if (s != d) finish({{d, &p}, {s, &ps}}); else done(d, p);
    if (exp.ord[0].size() > 2) VF_HIT_G(G_COPY, "copy of a non-trivial container");
    if (al != M[s].alloc && exp.ord[0].size() > 0) VF_HIT_G(G_COPY, "copy with another allocator");
  }
}
void op_CMOV(const Op& o) {
  if constexpr (has(G_COPY)) {
    int d = int(o.a[0] % NA), s = int(o.a[0] / 8 % NA);
    bool withAl = o.a[1] % 2;
    int al = withAl ? allocOf(o.a[2]) : M[s].alloc;
    bool eq = ALEQ || al == M[s].alloc;
    MC exp = M[s];
    Plan pd(M[d]), ps(M[s]);
    if (!eq) exp = cloneMC(M[s], pd);
    exp.alloc = al;
    std::unique_ptr<CA> n;
    if constexpr (has(G_ITER)) dropRet(s, true);
    call(BASIC, [&] { if (withAl) n.reset(new CA(std::move(*A[s]), Alloc(al))); else n.reset(new CA(std::move(*A[s]))); });
    if (threw) { if constexpr (has(G_ITER)) if (!eq) dropRet(s, false); basic({s}, eq, -1); if (d != s) strong({d}); return; }
    EV deadD = (d != s) ? M[d].ord[0] : EV();
    if constexpr (has(G_ITER)) { if (d != s) dropRet(d, false); else dropRet(d, true); }
    A[d].swap(n);
    if (d != s) { n.reset(); pd.dead = deadD; }
    if (!eq) for (El* e : M[s].ord[0]) ps.dead.push_back(e);
    MC empty = M[s];
    for (int i = 0; i < N; ++i) empty.ord[i].clear();
    // the moved-from object: n if d==s (destroyed below), A[s] otherwise
    if (d == s) { if (n->size() != 0) VF_FAIL("moved-from container is not empty"); n.reset(); }
    exactOrder(d, exp);
    pd.m = exp;
    if (d != s) { readStates(*A[s], empty); ps.m = empty; finish({{d, &pd}, {s, &ps}}); }
    else { pd.dead = ps.dead; done(d, pd); }
    if (exp.ord[0].size() > 2) VF_HIT_G(G_COPY, "move of a non-trivial container");
    if (!eq && exp.ord[0].size()) VF_HIT_G(G_COPY, "move construction with unequal allocator");
  }
}
void op_ACPY(const Op& o) {
  if constexpr (has(G_COPY)) {
    int d = int(o.a[0] % NA), s = int(o.a[0] / 8 % NA);
    Plan p(M[d]);
    EV dead = M[d].ord[0];
    p.m = cloneMC(M[s], p);
    p.m.alloc = POCCA ? M[s].alloc : M[d].alloc;
    MC exp = p.m;
    int i = int(o.a[1] % N);
    call(STRONG, [&] {
      if (o.a[2] % 2) *A[d] = static_cast<const CA&>(*A[s]);
      else withI(i, [&](auto Ic) { constexpr int I = decltype(Ic)::value; A[d]->template get<I>() = static_cast<const CA&>(*A[s]).template get<I>(); });
    });
    if (threw) { strong({d, s}); return; }
    if constexpr (has(G_ITER)) dropRet(d, false);
    p.dead = dead;
    exactOrder(d, exp);
    Plan ps(M[s]);
    if (s != d) finish({{d, &p}, {s, &ps}}); else done(d, p);
    if (exp.ord[0].size() > 2) VF_HIT_G(G_COPY, "copy assignment of a non-trivial container");
    if (s == d && exp.ord[0].size()) VF_HIT_G(G_COPY, "self copy assignment");
    if (!ALEQ && M[s].alloc != exp.alloc) VF_HIT_G(G_COPY, "copy assignment across unequal allocators");
  }
}
void op_AMOV(const Op& o) {
  if constexpr (has(G_COPY)) {
    int d = int(o.a[0] % NA), s = int(o.a[0] / 8 % NA);
    if (d == s) return;
    bool transfer = POCMA || ALEQ || M[d].alloc == M[s].alloc;
    Plan pd(M[d]), ps(M[s]);
    EV oldD = M[d].ord[0], oldS = M[s].ord[0];
    MC exp = transfer ? M[s] : cloneMC(M[s], pd);
    exp.alloc = POCMA ? M[s].alloc : M[d].alloc;
    MC dOld = M[d];
    if constexpr (has(G_ITER)) { dropRet(d, true); dropRet(s, true); }
    call(BASIC, [&] { *A[d] = std::move(*A[s]); });
    if (threw) { if constexpr (has(G_ITER)) { dropRet(d, false); dropRet(s, false); } basic({d, s}, transfer, -1); return; }
    if constexpr (has(G_ITER)) for (El* e : oldD) dropRetEl(e);
    exactOrder(d, exp);
    pd.m = exp;
    MC after = dOld;
    if (A[s]->size() == 0 || !transfer) { for (int i = 0; i < N; ++i) after.ord[i].clear(); pd.dead = oldD; }
    if (!transfer) for (El* e : oldS) pd.dead.push_back(e);
    readStates(*A[s], after);
    ps.m = after;
    finish({{d, &pd}, {s, &ps}});
    if (exp.ord[0].size() > 2) VF_HIT_G(G_COPY, "move assignment of a non-trivial container");
    if (!transfer && exp.ord[0].size()) VF_HIT_G(G_COPY, "move assignment with unequal allocators");
  }
}
void op_SWAP(const Op& o) {
  if constexpr (has(G_COPY) || has(G_ITER) || has(G_CMP)) {
    int d = int(o.a[0] % NA), s = int(o.a[0] / 8 % NA);
    if (!POCS && !ALEQ && M[d].alloc != M[s].alloc) return;  // precondition
    Plan pd(M[s]), ps(M[d]);
    if (!POCS) std::swap(pd.m.alloc, ps.m.alloc);
    if constexpr (has(G_ITER)) { dropRet(d, true); dropRet(s, true); }
    MC ed = M[s], es = M[d];
    int i = int(o.a[1] % N), var = int(o.a[2] % 4);
    call(NOTHROW, [&] {
      if (var == 0) A[d]->swap(*A[s]);
      else if (var == 1) { using std::swap; swap(*A[d], *A[s]); }
      else withI(i, [&](auto Ic) {
        constexpr int I = decltype(Ic)::value;
        if (var == 2) A[d]->template get<I>().swap(A[s]->template get<I>());
        else { using std::swap; swap(A[d]->template get<I>(), A[s]->template get<I>()); }
      });
    });
    if (d != s) { exactOrder(d, ed); exactOrder(s, es); finish({{d, &pd}, {s, &ps}}); }
    else done(d, pd);
    if (d != s && (ed.ord[0].size() || es.ord[0].size())) VF_HIT_G(G_COPY | G_ITER, "swap of non-empty containers");
  }
}
void op_AIL(const Op& o) {
  if constexpr (has(G_COPY)) {
    int d = int(o.a[0] % NA);
    int n = int(o.a[3] % 4);
    Plan p(M[d]);
    p.dead = M[d].ord[0];
    for (int i = 0; i < N; ++i) p.m.ord[i].clear();
    EV es; Rng r(o.a[2]);
    for (int k = 0; k < n; ++k) { El* e = mkv(k ? uint32_t(r.next()) : o.a[2]); es.push_back(e); if (place(p, d, e, -1, 0, false, true)) expectNew(e); }
    int i = int(o.a[1] % N);
    withVals(es, [&](std::vector<Val>& v) {
      std::initializer_list<Val> l0 = {}, l1 = {n > 0 ? v[0] : Val()}, l2 = {n > 1 ? v[0] : Val(), n > 1 ? v[1] : Val()}, l3 = {n > 2 ? v[0] : Val(), n > 2 ? v[1] : Val(), n > 2 ? v[2] : Val()};
      auto go = [&](auto& x) { if (n == 0) x = l0; else if (n == 1) x = l1; else if (n == 2) x = l2; else x = l3; };
      call(STRONG, [&] { if (o.a[4] % 2) go(*A[d]); else withI(i, [&](auto Ic) { constexpr int I = decltype(Ic)::value; go(A[d]->template get<I>()); }); });
    });
    if (threw) { strong({d}); return; }
    if constexpr (has(G_ITER)) dropRet(d, false);
    p.grew = false;
    done(d, p);
    VF_HIT_G(G_COPY, "initializer list assigned");
  }
}
void op_CTORR(const Op& o) {
  if constexpr (has(G_COPY)) {
    int d = int(o.a[0] % NA), n = int(o.a[3] % 8), al = allocOf(o.a[1]);
    Plan p(M[d]);
    p.dead = M[d].ord[0];
    MC m; states(d, o.a[4], m); m.alloc = al;
    p.m = m;
    EV es; Rng r(o.a[2]);
    for (int k = 0; k < n; ++k) { El* e = (k && r.chance(1, 4)) ? mk(es[0]->a, es[0]->b, es[0]->c) : mkv(k ? uint32_t(r.next()) : o.a[2]); es.push_back(e); if (place(p, d, e, -1, 0, false, true)) expectNew(e); }
    std::unique_ptr<CA> nw;
    withVals(es, [&](std::vector<Val>& v) {
      std::initializer_list<Val> il = {n > 0 ? v[0] : Val(), n > 1 ? v[1] : Val()};
      call(STRONG, [&] {
        if (n == 2) nw.reset(new CA(il, ctorArgs<CA>(m, o.a[1] / 4 % 40), Alloc(al)));
        else nw.reset(new CA(v.begin(), v.end(), ctorArgs<CA>(m, o.a[1] / 4 % 40), Alloc(al)));
      });
    });
    if (threw) { strong({d}); return; }
    if constexpr (has(G_ITER)) dropRet(d, false);
    A[d].swap(nw);
    nw.reset();
    p.grew = n > 0;
    done(d, p);
    if (n > 2) VF_HIT_G(G_COPY, "range construction");
  }
}
void op_CTORE(const Op& o) {
  if constexpr (has(G_COPY)) {
    if (o.a[3] % 3) return;
    int d = int(o.a[0] % NA), al = allocOf(o.a[1]);
    Plan p(M[d]);
    p.dead = M[d].ord[0];
    MC m;
    if (o.a[2] % 3) states(d, o.a[4], m);
    m.alloc = al;
    p.m = m;
    std::unique_ptr<CA> nw;
    call(STRONG, [&] { if (o.a[2] % 3) nw.reset(new CA(ctorArgs<CA>(m, o.a[1] / 4 % 40), Alloc(al))); else nw.reset(new CA(Alloc(al))); });
    if (threw) { strong({d}); return; }
    if constexpr (has(G_ITER)) dropRet(d, false);
    A[d].swap(nw);
    nw.reset();
    done(d, p);
  }
}

// ---------------------------------------------------------------- node handles
void dropHandle(int h) {
  El* e = hel[h];
  H[h] = NH();
  if (e && e->destroyed != 1) VF_FAIL("discarding a node handle destroyed its element ", e->destroyed, " times");
  if (e) e->where = -1;
  hel[h] = nullptr;
}
void takeHandle(int h, NH&& n, El* e, int al) {
  if (hel[h] && !POCMA && !ALEQ && halloc[h] != al) dropHandle(h);
  El* old = hel[h];
  H[h] = std::move(n);
  if (old) { if (old->destroyed != 1) VF_FAIL("assigning to a node handle destroyed its old element ", old->destroyed, " times"); old->where = -1; }
  hel[h] = e;
  halloc[h] = al;
  if (e) e->where = 100 + h;
}
void op_EXT(const Op& o) {
  if constexpr (has(G_NODE)) {
    int s = slot(o.a[0]), h = int(o.a[2] % NHD);
    int i = pickI(o.a[1], s, M_ALL);
    if (M[s].ord[0].empty()) return;
    on<M_ALL>(s, i, [&](auto&, auto& ix, auto Ic, auto) {
      constexpr int I = decltype(Ic)::value;
      El* e = M[s].ord[I][o.a[3] % M[s].ord[I].size()];
      Plan p(M[s]);
      unplace(p, e);
      if constexpr (has(G_ITER)) dropRetEl(e);
      auto it = ix.iterator_to(*e->addr);
      call(NOTHROW, [&] { NH n = ix.extract(it); takeHandle(h, std::move(n), e, M[s].alloc); if (!n.empty()) VF_FAIL("moved-from node handle is not empty"); });
      done(s, p);
      VF_HIT_G(G_NODE, "node extracted");
    });
  }
}
void op_EXTK(const Op& o) {
  if constexpr (has(G_NODE)) {
    int s = slot(o.a[0]), h = int(o.a[2] % NHD);
    int i = pickI(o.a[1], s, M_KEY);
    if (i < 0) return;
    on<M_KEY>(s, i, [&](auto&, auto& ix, auto Ic, auto Kc) {
      constexpr int I = decltype(Ic)::value; constexpr Kind K = decltype(Kc)::value;
      const EV& v = M[s].ord[I];
      int S = sel(s, I);
      int k = (o.a[4] % 3 && !v.empty()) ? key(v[o.a[3] % v.size()], S) : int(o.a[3] % 20);
      EV cand;
      for (El* e : v) if (keq(M[s].st[I], key(e, S), k)) { cand.push_back(e); if (kOrd(K)) break; }
      Plan p(M[s]);
      NH n;
      call(STRONG, [&] { n = ix.extract(k); });
      if (threw) { strong({s}); return; }
      if (cand.empty()) { if (!n.empty()) VF_FAIL("extract(key) of an absent key returned a node"); done(s, p); return; }
      if (n.empty()) VF_FAIL("extract(key) of a present key returned an empty handle");
      El* e = static_cast<El*>(n.value().tag);
      if (std::find(cand.begin(), cand.end(), e) == cand.end()) VF_FAIL("extract(key) did not extract ", kOrd(K) ? "the first" : "an", " equivalent element");
      unplace(p, e);
      if constexpr (has(G_ITER)) dropRetEl(e);
      takeHandle(h, std::move(n), e, M[s].alloc);
      done(s, p);
      VF_HIT_G(G_NODE, "node extracted by key");
    });
  }
}
void op_NHINS(const Op& o) { nhins(o, false); }
void op_NHINSH(const Op& o) { nhins(o, true); }
void nhins(const Op& o, bool hinted) {
  if constexpr (has(G_NODE)) {
    int s = slot(o.a[0]), h = int(o.a[2] % NHD);
    int i = hinted ? pickI(o.a[1], s, M_KEY) : pickI(o.a[1], s, M_ALL);
    if (i < 0) return;
    El* e = hel[h];
    if (e && !ALEQ && halloc[h] != M[s].alloc) return;  // precondition
    on<M_ALL>(s, i, [&](auto&, auto& ix, auto Ic, auto Kc) {
      constexpr int I = decltype(Ic)::value; constexpr Kind K = decltype(Kc)::value;
      std::size_t pos = o.a[3] % (M[s].ord[I].size() + 1);
      Plan p(M[s]);
      EV cl;
      bool ok = false;
      if (e) { cl = clashes(M[s], s, e); ok = kLst(K) ? place(p, s, e, I, pos) : hinted ? place(p, s, e, I, pos, true) : place(p, s, e); }
      const Val* got = nullptr; bool inserted = false, retIns = true; bool nhEmpty = false;
      auto pi = itAt(ix, ix, M[s].ord[I], pos);
      NH back;
      call(STRONG, [&] {
        if constexpr (kLst(K)) { auto r = ix.insert(pi, std::move(H[h])); got = r.position == ix.end() ? nullptr : &*r.position; inserted = r.inserted; back = std::move(r.node); }
        else if (hinted) { auto r = ix.insert(pi, std::move(H[h])); got = r == ix.end() ? nullptr : &*r; retIns = false; }
        else { auto r = ix.insert(std::move(H[h])); got = r.position == ix.end() ? nullptr : &*r.position; inserted = r.inserted; back = std::move(r.node); }
      });
      if (threw) { if (e && H[h].empty()) VF_FAIL("node handle lost its element in a failed insertion"); strong({s}); return; }
      nhEmpty = H[h].empty();
      if (retIns) {
        if (!nhEmpty) VF_FAIL("insert(node handle): handle is not empty afterwards");
        if (e && !ok) { if (back.empty()) VF_FAIL("refused insert(node handle): returned handle is empty"); H[h] = std::move(back); }
        else if (!back.empty()) VF_FAIL("insert(node handle): returned handle is not empty");
        if (inserted != ok) VF_FAIL("insert(node handle): inserted is ", inserted, ", expected ", ok);
      }
      else if (nhEmpty != (!e || ok)) VF_FAIL("hinted insert(node handle): handle ", nhEmpty ? "empty" : "not empty", " afterwards");
      if (ok) { hel[h] = nullptr; }
      done(s, p);
      if (!e) { if (got) VF_FAIL("insert(empty node handle): position is not end()"); }
      else if (ok) { if (got != e->addr) VF_FAIL("insert(node handle): position does not designate the element"); VF_HIT_G(G_NODE, "node inserted"); }
      else { if (!got || !in(cl, got->tag)) VF_FAIL("refused insert(node handle): position does not designate a clashing element"); VF_HIT_G(G_NODE, "node insertion refused"); }
    });
  }
}
void op_NHMOVE(const Op& o) {
  if constexpr (has(G_NODE)) {
    int x = int(o.a[0] % NHD), y = int(o.a[1] % NHD);
    if (x == y) { NH t(std::move(H[x])); if (!H[x].empty()) VF_FAIL("moved-from node handle is not empty"); H[x] = std::move(t); return; }
    if (hel[x] && hel[y] && !POCMA && !ALEQ && halloc[x] != halloc[y]) return;
    El* e = hel[y]; int al = halloc[y];
    El* old = hel[x];
    H[x] = std::move(H[y]);
    hel[y] = nullptr; hel[x] = e; halloc[x] = al;
    if (e) e->where = 100 + x;
    if (old) { if (old->destroyed != 1) VF_FAIL("node handle move assignment did not destroy the old element once"); old->where = -1; VF_HIT_G(G_NODE, "node handle overwritten"); }
    if (!H[y].empty()) VF_FAIL("moved-from node handle is not empty");
  }
}
void op_NHSWAP(const Op& o) {
  if constexpr (has(G_NODE)) {
    int x = int(o.a[0] % NHD), y = int(o.a[1] % NHD);
    if (x == y) return;
    if (hel[x] && hel[y] && !POCS && !ALEQ && halloc[x] != halloc[y]) return;
    if (o.a[2] % 2) H[x].swap(H[y]); else { using std::swap; swap(H[x], H[y]); }
    std::swap(hel[x], hel[y]); std::swap(halloc[x], halloc[y]);
    if (hel[x]) hel[x]->where = 100 + x;
    if (hel[y]) hel[y]->where = 100 + y;
    if (hel[x] || hel[y]) VF_HIT_G(G_NODE, "node handles swapped");
  }
}
void op_NHDROP(const Op& o) { if constexpr (has(G_NODE)) { if (o.a[1] % 3 == 0) dropHandle(int(o.a[0] % NHD)); } }
void op_NHMUT(const Op& o) {
  if constexpr (has(G_NODE)) {
    int h = int(o.a[0] % NHD);
    if (!hel[h]) return;
    El* t = mkv(o.a[1]);
    Val& v = H[h].value();
    v.a = t->a; v.b = t->b; v.c = t->c;
    setv(hel[h], cur(t));
    VF_HIT_G(G_NODE, "element changed inside a node handle");
  }
}

// ---------------------------------------------------------------- iterators
void op_KEEP(const Op& o) {
  if constexpr (has(G_ITER)) {
    int s = int(o.a[0] % NA);
    if (M[s].ord[0].empty()) return;
    withI(int(o.a[1] % N), [&](auto Ic) {
      constexpr int I = decltype(Ic)::value;
      auto& v = std::get<I>(R);
      auto& ix = A[s]->template get<I>();
      std::size_t pos = o.a[2] % M[s].ord[I].size();
      El* e = M[s].ord[I][pos];
      typename CA::template nth_index<I>::type::iterator it;
      switch (o.a[3] % 4) {
        case 0: it = ix.iterator_to(*e->addr); break;
        case 1: it = ix.begin(); std::advance(it, pos); break;
        case 2: it = bmi::project<I>(*A[s], A[s]->template get<(I + 1) % N>().iterator_to(*e->addr)); break;
        default: it = A[s]->template project<I>(A[s]->template get<0>().iterator_to(*e->addr)); break;
      }
      auto ip = std::make_unique<decltype(it)>(it);
      if (v.size() < 8) v.push_back({std::move(ip), e, s});
      else v[o.a[4] % v.size()] = {std::move(ip), e, s};
    });
  }
}
void op_KEEPEND(const Op& o) {
  if constexpr (has(G_ITER)) {
    int s = int(o.a[0] % NA);
    withI(int(o.a[1] % N), [&](auto Ic) {
      constexpr int I = decltype(Ic)::value;
      auto& v = std::get<I>(R);
      if (v.size() < 8) v.push_back({std::make_unique<typename CA::template nth_index<I>::type::iterator>(A[s]->template get<I>().end()), nullptr, s});
    });
  }
}
void op_PROJ(const Op& o) {
  if constexpr (has(G_ITER)) {
    int s = int(o.a[0] % NA);
    withI(int(o.a[1] % N), [&](auto Ic) {
      withI(int(o.a[1] / 8 % N), [&](auto Jc) {
        constexpr int I = decltype(Ic)::value, J = decltype(Jc)::value;
        std::size_t n = M[s].ord[0].size(), pos = o.a[2] % (n + 1);
        auto& ix = A[s]->template get<I>();
        const CA& cc = *A[s];
        auto it = itAt(ix, ix, M[s].ord[I], pos);
        auto chk = [&](auto r, auto end) {
          if (pos == n) { if (r != end) VF_FAIL("project of end() is not end()"); }
          else if (r == end || &*r != M[s].ord[I][pos]->addr) VF_FAIL("project<", J, "> of an iterator of index ", I, " designates another element");
        };
        chk(A[s]->template project<J>(it), A[s]->template get<J>().end());
        chk(bmi::project<J>(*A[s], it), bmi::get<J>(*A[s]).end());
        typename CA::template nth_index<I>::type::const_iterator cit = it;
        chk(cc.template project<J>(cit), cc.template get<J>().end());
        if (I != J && n > 1) VF_HIT_G(G_ITER, "iterator projected to another index");
      });
    });
  }
}

// ---------------------------------------------------------------- comparison
void op_CMPR(const Op& o) {
  if constexpr (has(G_CMP)) {
    int s1 = slot(o.a[0]), s2 = slot(o.a[0] / 8);
    withI(int(o.a[1] % N), [&](auto Ic) {
      constexpr int I = decltype(Ic)::value;
      withC(s1, [&](auto& c1, auto B1) { withC(s2, [&](auto& c2, auto B2) {
        constexpr Kind k1 = B1.value ? LB::kind[I] : LA::kind[I], k2 = B2.value ? LB::kind[I] : LA::kind[I];
        const auto& x = static_cast<const std::remove_reference_t<decltype(c1)>&>(c1).template get<I>();
        const auto& y = static_cast<const std::remove_reference_t<decltype(c2)>&>(c2).template get<I>();
        const EV& vx = M[s1].ord[I]; const EV& vy = M[s2].ord[I];
        auto same = [](El* p, El* q) { return p->a == q->a && p->b == q->b && p->c == q->c; };
        if constexpr (kHsh(k1)) {
          if constexpr (std::is_same<decltype(x), decltype(y)>::value) {
            const IS &t1 = M[s1].st[I], &t2 = M[s2].st[I];
            if (t1.coarse != t2.coarse || t1.hmode != t2.hmode) return;
            bool eq = vx.size() == vy.size();
            if (eq) { EV rest = vy; for (El* p : vx) { auto it = std::find_if(rest.begin(), rest.end(), [&](El* q) { return same(p, q); }); if (it == rest.end()) { eq = false; break; } rest.erase(it); } }
            bool r = x == y, r2 = y == x, n = x != y;
            if (r != eq) VF_FAIL("hashed ==: ", r, ", expected ", eq, " ", str(vx), " ", str(vy));
            if (r2 != r) VF_FAIL("hashed ==: not symmetric");
            if (n == r) VF_FAIL("hashed !=: is not the negation of ==");
            if (I == 0 && ((c1 == c2) != eq || (c1 != c2) == eq)) VF_FAIL("container comparison differs from that of its first index");
            if (vx.size() > 1) { if (eq && s1 != s2) VF_HIT_G(G_CMP, "equal hashed contents"); else if (vx.size() == vy.size()) VF_HIT_G(G_CMP, "unequal hashed contents of the same size"); }
          }
        }
        else if constexpr ((k1 == SQ) == (k2 == SQ) && (k1 == RA) == (k2 == RA)) {
          bool eq = vx.size() == vy.size() && std::equal(vx.begin(), vx.end(), vy.begin(), same);
          auto less = [](El* p, El* q) { return p->a < q->a; };
          bool lt = std::lexicographical_compare(vx.begin(), vx.end(), vy.begin(), vy.end(), less), gt = std::lexicographical_compare(vy.begin(), vy.end(), vx.begin(), vx.end(), less);
          auto ck = [&](const auto& p, const auto& q, const char* w) {
            if ((p == q) != eq) VF_FAIL(w, " ==: ", !eq, ", expected ", eq);
            if ((p != q) == eq) VF_FAIL(w, " !=: wrong");
            if ((p < q) != lt) VF_FAIL(w, " <: wrong");
            if ((p > q) != gt) VF_FAIL(w, " >: wrong");
            if ((p <= q) != !gt) VF_FAIL(w, " <=: wrong");
            if ((p >= q) != !lt) VF_FAIL(w, " >=: wrong");
          };
          ck(x, y, "index");
          if constexpr (I == 0) ck(c1, c2, "container");
          if (vx.size() > 1 && s1 != s2) { if (eq) VF_HIT_G(G_CMP, "equal sequences"); else if (vx.size() != vy.size() && !vy.empty()) VF_HIT_G(G_CMP, "sequences of different sizes"); else VF_HIT_G(G_CMP, "unequal sequences"); }
        }
      }); });
    });
  }
}

// ---------------------------------------------------------------- serialization
#ifdef VF_SER
template <class OA> static void saveTo(OA& ar, const CA& c, const MC& m, const std::size_t* pos) {
  const CA& cc = c;
  ar << boost::serialization::make_nvp("c", cc);
  saveIts<0>(ar, cc, m, pos);
}
template <int I, class OA> static void saveIts(OA& ar, const CA& c, const MC& m, const std::size_t* pos) {
  if constexpr (I < N) {
    typedef typename CA::template nth_index<I>::type Ix;
    const Ix& ix = c.template get<I>();
    std::size_t n = m.ord[I].size();
    typename Ix::const_iterator cit = pos[I] >= n ? ix.end() : ix.iterator_to(*m.ord[I][pos[I]]->addr);
    const typename Ix::const_iterator e = ix.end();
    ar << boost::serialization::make_nvp("i", cit);
    ar << boost::serialization::make_nvp("e", e);
    if constexpr (kHsh(LA::kind[I])) {
      typename Ix::const_local_iterator l = pos[I] >= n ? ix.end(pos[I] % ix.bucket_count()) : ix.local_iterator_to(*m.ord[I][pos[I]]->addr);
      ar << boost::serialization::make_nvp("l", l);
    }
    saveIts<I + 1>(ar, c, m, pos);
  }
}
struct Loaded { const Val* at[N]; bool endOk[N]; const Val* loc[N]; bool locEnd[N]; };
template <int I, class IA> static void loadIts(IA& ar, CA& c, const std::size_t* pos, std::size_t n, Loaded& o) {
  if constexpr (I < N) {
    typedef typename CA::template nth_index<I>::type Ix;
    Ix& ix = c.template get<I>();
    typename Ix::iterator it;
    typename Ix::const_iterator e;
    ar >> boost::serialization::make_nvp("i", it);
    ar >> boost::serialization::make_nvp("e", e);
    o.at[I] = it == ix.end() ? nullptr : &*it;
    o.endOk[I] = e == ix.end();
    o.loc[I] = nullptr; o.locEnd[I] = true;
    if constexpr (kHsh(LA::kind[I])) {
      typename Ix::local_iterator l;
      ar >> boost::serialization::make_nvp("l", l);
      if (pos[I] < n) { o.loc[I] = &*l; o.locEnd[I] = l == ix.local_iterator_to(*l); }
      else o.locEnd[I] = l == ix.end(pos[I] % ix.bucket_count());
    }
    loadIts<I + 1>(ar, c, pos, n, o);
  }
}
#endif
void op_SER(const Op& o) {
#ifdef VF_SER
  if constexpr (has(G_SER)) {
    switch (o.a[4] % 3) {
      case 0: serOp<boost::archive::text_oarchive, boost::archive::text_iarchive>(o, 0); break;
      case 1: serOp<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(o, 1); break;
      default: serOp<boost::archive::xml_oarchive, boost::archive::xml_iarchive>(o, 2); break;
    }
  }
#else
  (void)o;
#endif
}
#ifdef VF_SER
template <class OA, class IA> void serOp(const Op& o, int kindOf) {
  int d = int(o.a[0] % NA), s = int(o.a[0] / 8 % NA), x = int(o.a[0] / 64 % NA);
  std::size_t n = M[s].ord[0].size();
  std::size_t pos[N], posx[N];
  Rng r(o.a[2]);
  for (int i = 0; i < N; ++i) { pos[i] = r.below(uint32_t(n + 1)); posx[i] = r.below(uint32_t(M[x].ord[0].size() + 1)); }
  bool two = o.a[3] % 4 == 0 && x != s;  // saving one object twice is subject to object tracking
  // save
  std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
  {
    call(STRONG, [&] {
      OA ar(ss);
      if (two) saveTo(ar, *A[x], M[x], posx);
      saveTo(ar, *A[s], M[s], pos);
    });
    if (threw) { strong({s, x}); return; }
    Plan p1(M[s]);
    done(s, p1);
  }
  // the target: an existing container with compatible function objects, or a fresh one
  bool compat = d != s;
  for (int i = 0; i < N; ++i) if (M[d].st[i].desc != M[s].st[i].desc || M[d].st[i].coarse != M[s].st[i].coarse) compat = false;
  if (d == s) d = (d + 1) % NA;
  MC before = M[s];
  std::unique_ptr<CA> other;
  if (two) { MC m = M[x]; other.reset(new CA(ctorArgs<CA>(m, o.a[1] % 60), Alloc(M[x].alloc))); }
  if (!compat) {
    MC m;
    for (int i = 0; i < N; ++i) { m.st[i] = M[s].st[i]; if (kHsh(kind(d, i))) m.st[i].hmode = int(r.below(5)); }
    m.alloc = allocOf(o.a[1]);
    std::unique_ptr<CA> nw(new CA(ctorArgs<CA>(m, o.a[1] / 4 % 60), Alloc(m.alloc)));
    Plan p(M[d]);
    p.dead = M[d].ord[0];
    if constexpr (has(G_ITER)) dropRet(d, false);
    A[d].swap(nw);
    nw.reset();
    p.m = m;
    done(d, p);
  }
  else if (!M[d].ord[0].empty()) VF_HIT_G(G_SER, "loaded over a non-empty container");
  if (x == d) two = two && other != nullptr;
  Plan p(M[d]);
  for (El* e : EV(M[d].ord[0])) drop(p, e);
  std::unordered_map<El*, El*> cl;
  for (El* e : before.ord[0]) { cl[e] = clone(e); expectNew(cl[e]); }
  for (int i = 0; i < N; ++i) for (El* e : before.ord[i]) p.m.ord[i].push_back(cl[e]);
  p.grew = n > 0;
  std::string data = ss.str();
  bool cut = o.a[3] / 4 % 6 == 0 && kindOf != 2;
  if (cut) {
    std::size_t at = data.size() > 60 ? 40 + r.below(uint32_t(data.size() - 41)) : data.size() / 2;
    if (kindOf == 0) while (at < data.size() && data[at] != ' ') ++at;
    data.resize(at);
    VF_HIT_G(G_SER, "load from a truncated archive");
  }
  std::stringstream in(data, std::ios::in | std::ios::binary);
  Loaded L0, L1;
  bool arch = false;
  call(BASIC, [&] {
    try {
      IA ar(in);
      if (two) { ar >> boost::serialization::make_nvp("c", *other); loadIts<0>(ar, *other, posx, other->size(), L1); }
      ar >> boost::serialization::make_nvp("c", *A[d]);
      loadIts<0>(ar, *A[d], pos, n, L0);
    }
    catch (const boost::archive::archive_exception&) { if (!cut) throw; arch = true; }
  });
  if (threw || cut) { other.reset(); basic({d}, false, -1); Plan q(M[s]); done(s, q); return; }
  if (two) {
    if (x != d) for (int i = 0; i < N; ++i) withI(i, [&](auto Ic) {
      constexpr int I = decltype(Ic)::value;
      if constexpr (!kHsh(LA::kind[I])) {
        std::size_t k = 0;
        for (auto& v : other->template get<I>()) { if (k >= M[x].ord[I].size() || !(v.id == M[x].ord[I][k]->id)) VF_FAIL("first of two containers in an archive: index ", I, " restored in another order"); ++k; }
        if (k != M[x].ord[I].size()) VF_FAIL("first of two containers in an archive: restored with another size");
      }
    });
    other.reset();
    VF_HIT_G(G_SER, "two containers in one archive");
  }
  for (int i = 0; i < N; ++i) {
    EV& v = before.ord[i];
    std::size_t k = pos[i];
    int id = k < v.size() ? v[k]->id : 0;
    if (k >= v.size() ? L0.at[i] != nullptr : (!L0.at[i] || L0.at[i]->id != id)) VF_FAIL("index ", i, ": a saved iterator was not restored to the copy of its element");
    if (!L0.endOk[i]) VF_FAIL("index ", i, ": a saved end() iterator was not restored to end()");
    if (kHsh(kind(d, i)) && ((k < v.size() && L0.loc[i]->id != id) || !L0.locEnd[i])) VF_FAIL("index ", i, ": a saved local iterator was not restored to the copy of its element");
  }
  done(d, p);
  if (n > 2) VF_HIT_G(G_SER, "container of more than two elements restored");
}
#endif
