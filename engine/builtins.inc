  // included inside struct Engine: functions modelled by the executor itself
  void bi(const char* name, BuiltinFn f) {
    builtinIdx[name] = builtins.size();
    builtins.push_back(std::move(f));
  }
  bool constArg(State& s, const V& v, uint64_t& out) {
    if (!v.e) { out = v.c; return true; }
    return concretize(s, v.e, out);
  }
  bool doMalloc(State& s, const V& n, V& ret, uint8_t fill) {
    uint64_t sz = n.c;
    if (n.e) {
      // sizes above the limit behave like a failed allocation
      if (decide(s, mkBin(K::Ult, mkConst(opt.mallocLimit, 64), n.e))) { ret = cv(0); return true; }
      concretize(s, n.e, sz);
    }
    if (sz > opt.mallocLimit) { ret = cv(0); return true; }
    ret = cv(addrOf(s.mem.alloc(sz, OHeap, fill)));
    return true;
  }
  bool doFree(State& s, const V& p) {
    uint64_t a;
    if (!constArg(s, p, a)) return false;
    if (!a) return true;
    Obj* o = s.mem.get(a >> 32);
    if (!o || o->kind != OHeap || (uint32_t)a != 0) {
      report(s, "memory", o && o->kind == OFreed ? "double free" : "invalid free", s.model);
      return false;
    }
    s.mem.release(a >> 32);
    return true;
  }
  void registerBuiltins() {
    typedef std::vector<V> A;
    // ---- harness interface
    bi("sym_make", [](Engine& e, State& s, KI&, A& a, V&) {
      std::string nm;
      if (!e.readCStr(s, a[2], nm)) return false;
      uint64_t n; e.constArg(s, a[1], n);
      int cnt = s.bufCount[nm]++;
      if (cnt) nm += "#" + std::to_string(cnt);
      uint32_t id, off; Expr* oe;
      if (n && !e.resolve(s, a[0], n, true, id, off, oe)) return false;
      if (n) {
        Obj* o = s.mem.getW(id);
        for (uint64_t i = 0; i < n; i++) writeByte(o, off + i, 0, mkVar(varIndex(nm, i)));
      }
      s.bufs.push_back({nm, (uint32_t)n});
      return true;
    });
    bi("sym_assume", [](Engine& e, State& s, KI&, A& a, V&) {
      V c = a[0];
      if (!c.e) return c.c != 0;
      Expr* t = c.e->w == 1 ? c.e : mkNot(mkEq(c.e, mkConst(0, c.e->w)));
      if (!e.mdl(s, t)) {
        Model m;
        Sat r = e.feasible(s, t, m);
        if (r == Sat::Unknown) e.incompletePath(s, "solver gave no answer (query timeout)");
        if (r != Sat::Sat) return false;
        s.model = m;
      }
      e.addPC(s, t);
      return true;
    });
    bi("sym_check", [](Engine& e, State& s, KI&, A& a, V&) {
      std::string lab;
      if (!e.readCStr(s, a[1], lab)) return false;
      e.checks[lab]++;
      V c = a[0];
      if (!c.e) {
        if (c.c) return true;
        e.report(s, "property", lab, s.model);
        e.errPaths++;
        return false;
      }
      Expr* t = c.e->w == 1 ? c.e : mkNot(mkEq(c.e, mkConst(0, c.e->w)));
      e.checksTrivial[lab]++;
      if (getenv("MSE_DUMPCHECK")) fprintf(stderr, "check %s: %s\n", lab.c_str(), exprToString(t, 30).c_str());
      Model m;
      e.assertQ++;
      if (!e.mustBe(s, t, &m)) {
        e.report(s, "property", lab, m);
        if (!e.mdl(s, t)) {
          Model m2;
          if (e.feasible(s, t, m2) != Sat::Sat) { e.errPaths++; return false; }
          s.model = m2;
        }
      }
      e.addPC(s, t);
      return true;
    });
    bi("sym_expect", [](Engine& e, State& s, KI&, A& a, V&) {
      std::string lab;
      if (!e.readCStr(s, a[0], lab)) return false;
      e.expected.insert(lab);
      return true;
    });
    bi("sym_cover", [](Engine& e, State& s, KI&, A& a, V&) {
      std::string lab;
      if (!e.readCStr(s, a[0], lab)) return false;
      e.covers[lab]++;
      s.trace.push_back({"cover " + lab, cv(0)});
      return true;
    });
    bi("sym_bound", [](Engine& e, State& s, KI&, A& a, V&) {
      std::string lab;
      if (!e.readCStr(s, a[0], lab)) return false;
      e.bounds[lab] = a[1].c;
      return true;
    });
    bi("sym_concrete", [](Engine& e, State& s, KI&, A& a, V& r) {
      uint64_t v; e.constArg(s, a[0], v); r = cv(v); return true;
    });
    bi("sym_is_symbolic", [](Engine& e, State& s, KI&, A& a, V& r) { r = cv(a[0].e ? 1 : 0); return true; });
    bi("sym_native", [](Engine& e, State& s, KI&, A& a, V& r) { r = cv(0); return true; });
    bi("sym_decide", [](Engine& e, State& s, KI&, A& a, V& r) {
      if (!a[0].e) { r = cv(a[0].c & 1); return true; }
      Expr* c = a[0].e->w == 1 ? a[0].e : mkNot(mkEq(a[0].e, mkConst(0, a[0].e->w)));
      r = cv(e.decide(s, c));
      return true;
    });
    // select without forking: sym_ite(cond, a, b)
    bi("sym_ite", [](Engine& e, State& s, KI&, A& a, V& r) {
      V c = a[0];
      if (!c.e) { r = c.c ? a[1] : a[2]; return true; }
      Expr* t = c.e->w == 1 ? c.e : mkNot(mkEq(c.e, mkConst(0, c.e->w)));
      r = vex(mkIte(t, ex(a[1], 64), ex(a[2], 64)));
      return true;
    });
    bi("sym_trace", [](Engine& e, State& s, KI&, A& a, V&) {
      std::string lab;
      if (!e.readCStr(s, a[0], lab)) return false;
      if (s.trace.size() < 400) s.trace.push_back({"trace " + lab, a[1]});
      return true;
    });
    bi("sym_print", [](Engine& e, State& s, KI&, A& a, V&) {
      std::string lab;
      if (!e.readCStr(s, a[0], lab)) return false;
      if (a[1].e) fprintf(stderr, "[print] %s = %s\n", lab.c_str(), exprToString(a[1].e, 8).c_str());
      else fprintf(stderr, "[print] %s = %lld (0x%llx)\n", lab.c_str(), (long long)a[1].c, (unsigned long long)a[1].c);
      return true;
    });
    bi("sym_stub", [](Engine& e, State& s, KI&, A& a, V&) {
      std::string lab;
      if (!e.readCStr(s, a[0], lab)) return false;
      e.stubs.insert(lab);
      return true;
    });
    bi("sym_stop", [](Engine& e, State& s, KI&, A& a, V&) { e.pathsDone++; e.takeSample(s); return false; });
    bi("sym_unsupported", [](Engine& e, State& s, KI&, A& a, V&) {
      std::string lab;
      if (!e.readCStr(s, a[0], lab)) return false;
      e.incompletePath(s, "unsupported: " + lab);
      return false;
    });
    bi("sym_same_object", [](Engine& e, State& s, KI&, A& a, V& r) {
      if (a[0].e || a[1].e) { r = cv(0); return true; }
      r = cv((a[0].c >> 32) == (a[1].c >> 32)); return true;
    });
    // ---- memory
    auto mal = [](Engine& e, State& s, KI&, A& a, V& r) { return e.doMalloc(s, a[0], r, 0xAA); };
    bi("sym_malloc", mal);
    bi("malloc", mal);
    bi("calloc", [](Engine& e, State& s, KI&, A& a, V& r) {
      return e.doMalloc(s, e.binop(Instruction::Mul, a[0], a[1], 64), r, 0);
    });
    auto fre = [](Engine& e, State& s, KI&, A& a, V&) { return e.doFree(s, a[0]); };
    bi("sym_free", fre);
    bi("free", fre);
    auto cpy = [](Engine& e, State& s, KI&, A& a, V& r) {
      uint64_t n; e.constArg(s, a[2], n);
      r = a[0];
      return e.memCopy(s, a[0], a[1], n);
    };
    bi("memcpy", cpy);
    bi("memmove", cpy);
    bi("memset", [](Engine& e, State& s, KI&, A& a, V& r) {
      uint64_t n; e.constArg(s, a[2], n);
      r = a[0];
      V v = a[1]; if (v.e) v.e = mkExtract(v.e, 0, 8);
      return e.memFill(s, a[0], v, n);
    });
    auto cmp = [](Engine& e, State& s, KI&, A& a, V& r) {
      uint64_t n; e.constArg(s, a[2], n);
      std::vector<Expr*> x, y;
      if (!e.readBytes(s, a[0], n, x) || !e.readBytes(s, a[1], n, y)) return false;
      Expr* o = mkConst(0, 32);
      for (int64_t i = (int64_t)n - 1; i >= 0; i--) {
        Expr* d = mkBin(K::Sub, mkZExt(x[i], 32), mkZExt(y[i], 32));
        o = mkIte(mkEq(x[i], y[i]), o, d);
      }
      r = vex(o);
      return true;
    };
    bi("memcmp", cmp);
    bi("bcmp", [](Engine& e, State& s, KI&, A& a, V& r) {
      uint64_t n; e.constArg(s, a[2], n);
      std::vector<Expr*> x, y;
      if (!e.readBytes(s, a[0], n, x) || !e.readBytes(s, a[1], n, y)) return false;
      Expr* o = mkTrue();
      for (uint64_t i = 0; i < n; i++) o = mkAnd(o, mkEq(x[i], y[i]));
      r = vex(mkIte(o, mkConst(0, 32), mkConst(1, 32)));
      return true;
    });
    bi("strlen", [](Engine& e, State& s, KI&, A& a, V& r) {
      std::string t; std::vector<Expr*> v;
      if (!e.readCStr(s, a[0], t, &v)) return false;
      r = cv(t.size());
      return true;
    });
    // ---- concrete host helpers
    bi("sym_host_fmt", [](Engine& e, State& s, KI&, A& a, V& r) {
      // (char* buf, size_t n, const char* fmt, double bits as u64) -> length
      std::string fmt;
      if (!e.readCStr(s, a[2], fmt)) return false;
      uint64_t bits;
      if (a[3].e) { e.incompletePath(s, "formatting a symbolic floating point value"); return false; }
      bits = a[3].c;
      double d; memcpy(&d, &bits, 8);
      char b[512];
      int n = snprintf(b, sizeof b, fmt.c_str(), d);
      uint64_t cap; e.constArg(s, a[1], cap);
      for (int i = 0; i <= n && (uint64_t)i < cap; i++)
        if (!e.store(s, cv(a[0].c + i), cv((uint8_t)b[i]), 8)) return false;
      r = cv((uint64_t)(uint32_t)n);
      return true;
    });
    bi("sym_host_strtod", [](Engine& e, State& s, KI&, A& a, V& r) {
      // (const char* text, size_t* consumed) -> bits
      std::string t; std::vector<Expr*> v;
      if (!e.readCStr(s, a[0], t, &v)) return false;
      for (auto x : v) if (!x->isConst()) { e.incompletePath(s, "parsing a symbolic floating point text"); return false; }
      char* end; double d = strtod(t.c_str(), &end);
      uint64_t bits; memcpy(&bits, &d, 8);
      if (!e.store(s, a[1], cv(end - t.c_str()), 64)) return false;
      r = cv(bits);
      return true;
    });
    auto uf1 = [](UFId id) { return [id](Engine& e, State& s, KI&, A& a, V& r) { r = vex(mkUF(id, ex(a[0], 64), nullptr, 64)); return true; }; };
    bi("exp", uf1(UF_EXP)); bi("log", uf1(UF_LOG)); bi("log10", uf1(UF_LOG10)); bi("sin", uf1(UF_SIN)); bi("cos", uf1(UF_COS));
    bi("pow", [](Engine& e, State& s, KI&, A& a, V& r) { r = vex(mkUF(UF_POW, ex(a[0], 64), ex(a[1], 64), 64)); return true; });
    auto rnd = [](unsigned m, unsigned w) { return [m, w](Engine& e, State& s, KI&, A& a, V& r) { r = vex(mkFUn(K::FRnd, ex(a[0], w), w, m)); return true; }; };
    bi("floor", rnd(0, 64)); bi("ceil", rnd(1, 64)); bi("trunc", rnd(2, 64)); bi("round", rnd(3, 64)); bi("rint", rnd(4, 64)); bi("nearbyint", rnd(4, 64));
    bi("floorf", rnd(0, 32)); bi("ceilf", rnd(1, 32)); bi("truncf", rnd(2, 32)); bi("roundf", rnd(3, 32));
    bi("sqrt", [](Engine& e, State& s, KI&, A& a, V& r) { r = vex(mkFUn(K::FSqrt, ex(a[0], 64), 64)); return true; });
    bi("fabs", [](Engine& e, State& s, KI&, A& a, V& r) { r = e.binop(Instruction::And, a[0], cv(~0ull >> 1), 64); return true; });
    bi("fmod", [](Engine& e, State& s, KI&, A& a, V& r) { r = e.fbin(Instruction::FRem, a[0], a[1], 64); return true; });
    // ---- exceptions
    bi("__cxa_allocate_exception", [](Engine& e, State& s, KI&, A& a, V& r) {
      uint64_t n; e.constArg(s, a[0], n);
      r = cv(addrOf(s.mem.alloc(n ? n : 1, OHeap, 0)));
      return true;
    });
    bi("__cxa_free_exception", [](Engine& e, State& s, KI&, A& a, V&) { s.mem.release(a[0].c >> 32); return true; });
    bi("__cxa_throw", [](Engine& e, State& s, KI&, A& a, V&) {
      Exc x; x.ptr = a[0].c; x.ti = a[1].c;
      s.excs[a[0].c] = x;
      s.th[s.cur].uncaught++;
      e.noReturn = true;
      if (!e.throwExc(s, a[0].c)) { e.errPaths++; return false; }
      return true;
    });
    bi("__cxa_begin_catch", [](Engine& e, State& s, KI&, A& a, V& r) {
      auto& x = s.excs[a[0].c];
      x.handlers++;
      s.th[s.cur].caught.push_back(a[0].c);
      s.th[s.cur].uncaught--;
      r = a[0];
      return true;
    });
    bi("__cxa_get_exception_ptr", [](Engine& e, State& s, KI&, A& a, V& r) { r = a[0]; return true; });
    bi("__cxa_end_catch", [](Engine& e, State& s, KI&, A& a, V&) {
      auto& c = s.th[s.cur].caught;
      if (c.empty()) return true;
      uint64_t p = c.back(); c.pop_back();
      auto it = s.excs.find(p);
      if (it != s.excs.end() && --it->second.handlers <= 0 && s.th[s.cur].uncaught == 0) s.excs.erase(it);
      return true;
    });
    bi("__cxa_rethrow", [](Engine& e, State& s, KI&, A& a, V&) {
      auto& c = s.th[s.cur].caught;
      if (c.empty()) { e.report(s, "exception", "rethrow without exception", s.model); return false; }
      uint64_t p = c.back();
      s.th[s.cur].uncaught++;
      e.noReturn = true;
      if (!e.throwExc(s, p)) { e.errPaths++; return false; }
      return true;
    });
    bi("_ZSt18uncaught_exceptionv", [](Engine& e, State& s, KI&, A& a, V& r) { r = cv(s.th[s.cur].uncaught > 0); return true; });
    bi("_ZSt19uncaught_exceptionsv", [](Engine& e, State& s, KI&, A& a, V& r) { r = cv(s.th[s.cur].uncaught); return true; });
    auto term = [](const char* why) { return [why](Engine& e, State& s, KI&, A& a, V&) { e.report(s, "terminate", why, s.model); e.errPaths++; return false; }; };
    bi("_ZSt9terminatev", term("std::terminate"));
    bi("__clang_call_terminate", term("exception leaves a noexcept function"));
    bi("abort", term("abort"));
    bi("exit", term("exit"));
    bi("__cxa_pure_virtual", term("pure virtual call"));
    bi("__cxa_call_unexpected", term("unexpected exception"));
    bi("__gxx_personality_v0", term("personality"));
    bi("__cxa_atexit", [](Engine& e, State& s, KI&, A& a, V& r) { r = cv(0); return true; });
    bi("__cxa_guard_acquire", [](Engine& e, State& s, KI&, A& a, V& r) {
      e.inAtomic = true;
      V b; bool ok = e.load(s, a[0], 8, b);
      e.inAtomic = false;
      e.acquire(s, a[0].c, s.cur);
      if (!ok) return false;
      r = cv(b.c == 0); return true;
    });
    bi("__cxa_guard_release", [](Engine& e, State& s, KI&, A& a, V& r) {
      e.inAtomic = true;
      bool ok = e.store(s, a[0], cv(1), 8);
      e.inAtomic = false;
      e.release(s, a[0].c, s.cur);
      return ok; });
    bi("__cxa_guard_abort", [](Engine& e, State& s, KI&, A& a, V& r) { return true; });
    // ---- threads
    bi("sym_thread_create", [](Engine& e, State& s, KI& k, A& a, V& r) {
      auto it = e.funcAt.find(a[0].c >> 32);
      if (it == e.funcAt.end()) return false;
      int me = s.cur;
      s.th.emplace_back();
      s.cur = s.th.size() - 1;
      std::vector<V> args{a[1]};
      e.pushFrame(s, it->second, args, nullptr);
      r = cv(s.cur);
      if (opt.races && s.cur <= 3) {
        s.race.on = true;
        e.joinClock(s.race.vc[s.cur], s.race.vc[me]);
        s.race.vc[me][me]++;
      }
      s.cur = me;
      e.callDone(s, k, r);
      e.noReturn = true;
      return e.schedule(s, false);
    });
    bi("sym_thread_join", [](Engine& e, State& s, KI& k, A& a, V& r) {
      uint64_t t = a[0].c;
      if (t >= s.th.size()) return false;
      if (s.th[t].stat == TDone) { e.joined(s, s.cur, (int)t); return true; }
      s.th[s.cur].stat = TJoin; s.th[s.cur].waitAddr = t;
      e.blocked = true;
      return e.schedule(s, true);
    });
    bi("sym_yield", [](Engine& e, State& s, KI& k, A& a, V& r) {
      e.callDone(s, k, cv(0));
      e.noReturn = true;
      return e.schedule(s, false);
    });
    bi("sym_point", [](Engine& e, State& s, KI& k, A& a, V& r) {
      e.callDone(s, k, cv(0));
      e.noReturn = true;
      return e.schedule(s, false);
    });
    bi("sym_clock_skew", [](Engine& e, State& s, KI& k, A& a, V& r) { r = cv(s.skew); return true; });
    bi("sym_thread_self", [](Engine& e, State& s, KI& k, A& a, V& r) { r = cv(s.cur); return true; });
    bi("sym_mutex_holder", [](Engine& e, State& s, KI& k, A& a, V& r) {
      auto it = s.mutex.find(a[0].c); r = cv(it == s.mutex.end() ? 0 : it->second); return true;
    });
    auto mlock = [](Engine& e, State& s, KI& k, A& a, V& r) {
      uint64_t m = a[0].c;
      auto it = s.mutex.find(m);
      if (it != s.mutex.end()) {
        if (it->second == s.cur + 1) { e.report(s, "deadlock", "mutex locked twice by the same thread", s.model); e.errPaths++; return false; }
        s.th[s.cur].stat = TMutex; s.th[s.cur].waitAddr = m; s.th[s.cur].pendingRet = 0;
        e.blocked = true;
        return e.schedule(s, true);
      }
      s.mutex[m] = s.cur + 1;
      e.acquire(s, m, s.cur);
      e.callDone(s, k, cv(0));
      e.noReturn = true;
      return true;
    };
    bi("pthread_mutex_lock", mlock);
    bi("pthread_mutex_trylock", [](Engine& e, State& s, KI& k, A& a, V& r) {
      if (s.mutex.count(a[0].c)) { r = cv(16); return true; }
      s.mutex[a[0].c] = s.cur + 1; e.acquire(s, a[0].c, s.cur); r = cv(0); return true;
    });
    bi("pthread_mutex_unlock", [](Engine& e, State& s, KI& k, A& a, V& r) {
      auto it = s.mutex.find(a[0].c);
      if (it == s.mutex.end() || it->second != s.cur + 1) { e.report(s, "deadlock", "unlock of a mutex that is not held", s.model); e.errPaths++; return false; }
      e.release(s, it->first, s.cur);
      s.mutex.erase(it);
      e.callDone(s, k, cv(0));
      e.noReturn = true;
      return e.schedule(s, false);
    });
    auto cwait = [](bool timed) { return [timed](Engine& e, State& s, KI& k, A& a, V& r) {
      uint64_t c = a[0].c, m = a[1].c;
      auto it = s.mutex.find(m);
      if (it == s.mutex.end() || it->second != s.cur + 1) { e.report(s, "deadlock", "condition wait without the mutex", s.model); e.errPaths++; return false; }
      e.release(s, it->first, s.cur);
      s.mutex.erase(it);
      Thread& t = s.th[s.cur];
      t.stat = timed ? TTimed : TCond; t.waitAddr = c; t.reMutex = m;
      e.blocked = true;
      return e.schedule(s, true);
    }; };
    bi("pthread_cond_clockwait", cwait(true));
    bi("pthread_cond_timedwait", cwait(true));
    bi("pthread_cond_wait", cwait(false));
    bi("_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", [cwait](Engine& e, State& s, KI& k, A& a, V& r) {
      V m; if (!e.load(s, a[1], 64, m)) return false;
      A b{a[0], m};
      return cwait(false)(e, s, k, b, r);
    });
    auto notify = [](bool all) { return [all](Engine& e, State& s, KI& k, A& a, V& r) {
      for (auto& t : s.th)
        if ((t.stat == TCond || t.stat == TTimed) && t.waitAddr == a[0].c) {
          t.stat = TMutex; t.waitAddr = t.reMutex; t.pendingRet = 0;
          if (!all) break;
        }
      e.callDone(s, k, cv(0));
      e.noReturn = true;
      return e.schedule(s, false);
    }; };
    bi("_ZNSt18condition_variable10notify_oneEv", notify(false));
    bi("_ZNSt18condition_variable10notify_allEv", notify(true));
    bi("pthread_cond_signal", notify(false));
    bi("pthread_cond_broadcast", notify(true));
    bi("_ZNSt18condition_variableC1Ev", [](Engine& e, State& s, KI& k, A& a, V& r) { return true; });
    bi("_ZNSt18condition_variableC2Ev", [](Engine& e, State& s, KI& k, A& a, V& r) { return true; });
    bi("_ZNSt18condition_variableD1Ev", [](Engine& e, State& s, KI& k, A& a, V& r) { return true; });
    bi("_ZNSt18condition_variableD2Ev", [](Engine& e, State& s, KI& k, A& a, V& r) { return true; });
    bi("nanosleep", [](Engine& e, State& s, KI& k, A& a, V& r) {
      e.callDone(s, k, cv(0)); e.noReturn = true; return e.schedule(s, false);
    });
  }
