// Windows of more than 2^32 bytes: see huge.h.
static constexpr u64 HCH = 257u * 4096;                    // every chunk maps the same memory; does not divide 2^32, or sums of bytes would be blind to 2^32 elements more or less
static constexpr u64 HWIN = (1ull << 32) + 16 * HCH;
static constexpr u64 HBASE[2] = {0x540000000000ull, 0x548000000000ull};
static u8 huge_pat(u64 j) { return u8(mix(j, 99) & 7); }

// empty: the call behaved; otherwise what went wrong
static std::string huge_call(const HugeDesc& d, u8* mem_in, u8* mem_out, u64 n, u64 off, long k)
{
  for (u64 j = 0; j < HCH; ++j) { mem_in[j] = huge_pat(j); mem_out[j] = u8(huge_pat(j) + 64); }
  const std::string kind = d.kind;
  const u64 page = 4096, end = off + n;
  const bool flush = end % page == 0;
  const u64 lo[2] = {HBASE[0] + off, HBASE[1] + off}, hi[2] = {lo[0] + n, lo[1] + n};
  if (flush) for (u64 h : hi) mprotect(reinterpret_cast<void*>(h), page, PROT_NONE);
  const bool writes = kind == "fe_ref" || kind == "tr" || kind == "tr2";
  HugeCtx c{reinterpret_cast<void*>(lo[0]), reinterpret_cast<void*>(lo[1]), n, k, 0, 0, nullptr};
  std::string why;
  // normally less than two seconds
  itimerval tv{}; tv.it_value.tv_sec = 60; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  g_huge = true;
  const int sig = sigsetjmp(g_huge_jmp, 1);
  if (!sig) d.run(&c);
  g_huge = false;
  if (flush) for (u64 h : hi) mprotect(reinterpret_cast<void*>(h), page, PROT_READ | PROT_WRITE);
  if (sig == SIGVTALRM) return "the call does not end";
  if (sig) return fmts("the call ended in signal %d", sig);
  // what the call must have done
  const u64 q = n / HCH, rem = n % HCH;
  auto cover = [&](u64 j) { return q + (((j + HCH - off % HCH) % HCH) < rem); };   // how often position j of the shared chunk occurs in the range
  u64 sum = 0, hits = 0;
  for (u64 j = 0; j < HCH; ++j) { sum += cover(j) * huge_pat(j); hits += huge_pat(j) == u8(k) ? cover(j) : 0; }
  if (d.prop != 3 && kind != "cnt" && c.lanes != n) return fmts("the callable was handed %llu of %llu elements", (unsigned long long)c.lanes, (unsigned long long)n);
  if ((kind == "fe_val" || kind == "cnt") && c.got != long(hits)) return fmts("counted %ld of %llu", c.got, (unsigned long long)hits);
  if (kind == "red" && u8(c.got) != u8(sum + k)) return fmts("sum is %ld instead of %d", c.got, u8(sum + k));
  if (kind == "tred" && u8(c.got) != u8(sum + k + n)) return fmts("sum is %ld instead of %d", c.got, u8(sum + k + n));
  if (kind == "tred2" && u8(c.got) != u8(2 * sum + k)) return fmts("sum is %ld instead of %d", c.got, u8(2 * sum + k));
  if ((kind == "tr" || kind == "tr2") && u64(c.ret) != hi[1]) return fmts("the returned position is %lld elements from the end of the output", (long long)(u64(c.ret) - hi[1]));
  for (u64 j = 0; j < HCH; ++j)
    {
      if (mem_in[j] != huge_pat(j)) return "an input element was changed";
      const u64 cv = cover(j);
      const u8 old = u8(huge_pat(j) + 64);
      const u8 want = !writes || !cv ? old : kind == "fe_ref" ? u8(old + cv) : u8(huge_pat(j) * 2 + 1);
      if (mem_out[j] != want) return fmts("element %llu (and those that share its memory) is %d instead of %d", (unsigned long long)((j + HCH - off % HCH) % HCH), mem_out[j], want);
    }
  return why;
}

static int huge_main(u64 seed, u64 shard, u64 nshards, const std::string& replay, const std::string& out)
{
  int fd[2]; u8* m[2];
  for (int i = 0; i < 2; ++i)
    {
      fd[i] = memfd_create("huge", 0);
      if (fd[i] < 0 || ftruncate(fd[i], HCH)) { std::printf("HUGE unavailable\n"); return 0; }
      m[i] = static_cast<u8*>(mmap(nullptr, HCH, PROT_READ | PROT_WRITE, MAP_SHARED, fd[i], 0));
      void* r = mmap(reinterpret_cast<void*>(HBASE[i] - HCH), HWIN + 2 * HCH, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
      bool ok = m[i] != MAP_FAILED && u64(r) == HBASE[i] - HCH;
      for (u64 a = HBASE[i]; ok && a < HBASE[i] + HWIN; a += HCH)
        ok = mmap(reinterpret_cast<void*>(a), HCH, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd[i], 0) != MAP_FAILED;
      if (!ok) { std::printf("HUGE unavailable\n"); return 0; }
    }
  if (!replay.empty())
    {
      FILE* f = std::fopen(replay.c_str(), "r");
      char line[400], name[200]; unsigned long long n = 0, off = 0; long k = 0;
      if (!f) return 95;
      bool got = false;
      while (std::fgets(line, sizeof line, f))
        {
          if (!std::strncmp(line, "# property: C", 13)) g_prop = std::atoi(line + 13);
          if (std::sscanf(line, "huge %199s n %llu off %llu k %ld", name, &n, &off, &k) == 4) got = true;
        }
      std::fclose(f);
      if (!got) return 95;
      for (auto& d : g_huge_ops)
        if (!std::strcmp(d.name, name) && d.prop == g_prop)
          {
            const std::string why = huge_call(d, m[0], m[1], n, off, k);
            std::printf("%s n=%llu: %s\n", name, n, why.empty() ? "no violation" : why.c_str());
            return why.empty() ? 3 : 1;
          }
      return 3;
    }
  u64 i = 0, elems = 0, runs = 0;
  // shapes: 2^31 and a bit; 2^32 and a bit; 2^32 plus exactly / less than the elements before the first aligned address
  for (int shape = 3; shape >= 0; --shape)
    for (auto& d : g_huge_ops)
      {
        if (d.prop != g_prop || i++ % nshards != shard) continue;
        Rng g(mix(mix(seed, 0x4096), mix(u64(shape), u64(&d - g_huge_ops.data()))));
        u64 n = (1ull << (shape ? 32 : 31)) + g.below(240) - 40, off = g.below(96);
        if (g.below(2)) off = (4096 - n % 4096) % 4096;   // ends where an inaccessible page begins
        if (shape >= 2)
          {
            const u64 al = 16u << g.below(3), before = 1 + g.below(shape == 2 ? 15 : al - 1);
            off = 4096 - before; n = (1ull << 32) + (shape == 2 ? before : g.below(before));
          }
        const long k = long(g.below(7));
        const std::string why = huge_call(d, m[0], m[1], n, off, k);
        ++runs; elems += n;
        if (!why.empty())
          {
            if (FILE* f = out.empty() ? nullptr : std::fopen(out.c_str(), "w"))
              {
                std::fprintf(f, "# vir-simd deterministic simulation replay\n# property: C%02d\n# mode: sim-hg\n# seed: %llu\n# run: huge\n# class: huge-range\n# violation: %s [op %s n=%llu]\n# hash: none\nhuge %s n %llu off %llu k %ld\n",
                             g_prop, (unsigned long long)seed, why.c_str(), d.name, (unsigned long long)n, d.name, (unsigned long long)n, (unsigned long long)off, k);
                std::fclose(f);
              }
            std::printf("FOUND run huge class=huge-range %s n=%llu: %s\n", d.name, (unsigned long long)n, why.c_str());
            return 10;
          }
      }
  std::printf("HUGE runs %llu\nHUGE elements %llu\n", (unsigned long long)runs, (unsigned long long)elems);
  return 0;
}
