// Timestamp correction: every sequence of measurements on a small grid against
// the lower convex hull computed by brute force.
#include "vmc.hpp"
#include <iostream>
#include <algorithm>
#include <sm_timing/TimestampCorrector.hpp>
using namespace vmc;
struct P { long double x, y; };
// lower hull, all points
static std::vector<P> hull(const std::vector<P>& p) {
  std::vector<P> h;
  for (auto& q : p) {
    while (h.size() >= 2) {
      P a = h[h.size() - 2], b = h.back();
      if ((b.x - a.x) * (q.y - a.y) - (b.y - a.y) * (q.x - a.x) <= 0) h.pop_back(); else break;
    }
    h.push_back(q);
  }
  return h;
}
template <class T> void explore(const char* name, T unit, T offX, T offY, int depth, const std::vector<int>& dxs, const std::vector<int>& dys, long double tol) {
  long n = 1; size_t k = dxs.size() * dys.size();
  for (int i = 0; i < depth; ++i) n *= k;
  for (long code = 0; code < n; ++code) {
    std::string sc = fmt("%s unit=%.3g sequence=%ld depth=%d", name, (double)unit, code, depth);
    run(sc, [&] {
      sm::timing::TimestampCorrector<T> c;
      bool th = false; try { c.getLocalTime(offX); } catch (const std::runtime_error&) { th = true; }
      expect(th, "a prediction without data is not refused");
      std::vector<P> pts; T x = offX; long cc = code; std::string text;
      for (int i = 0; i < depth; ++i) {
        int s = cc % k; cc /= k;
        x = x + unit * (T)dxs[s % dxs.size()];
        T y = x - offX + offY + unit * (T)dys[s / dxs.size()];
        text += fmt("(%g,%g) ", (double)((x - offX) / unit), (double)((y - offY) / unit));
        pts.push_back({(long double)(x - offX), (long double)(y - offY)});
        T r = c.correctTimestamp(x, y);
        transition();
        auto h = hull(pts);
        u64 hs = 7; for (auto& q : h) hs = mix(mix(hs, hashD((double)(q.x / unit))), hashD((double)(q.y / unit))); state(hs);
        // a measurement does not go back in remote time, and changes nothing if it does
        for (int back = 0; back < 2; ++back) {
          bool thrown = false; try { c.correctTimestamp(x - unit * (T)back, y - unit * 50); } catch (const std::runtime_error&) { thrown = true; }
          expect(thrown, "a measurement that does not advance is accepted", text);
        }
        expect((long double)(r - offY) <= pts.back().y + tol, "the corrected time is later than the time of reception", text);
        if (pts.size() == 1) { expect(r == y, "the first measurement is not returned as it is", text); continue; }
        long double mid = (pts[0].x + pts.back().x) / 2;
        std::vector<size_t> seg;   // the segments spanning the middle
        for (size_t a = 0; a + 1 < h.size(); ++a) if (h[a].x <= mid && mid <= h[a + 1].x) seg.push_back(a);
        if (h.size() == 2) { seg.assign(1, 0); }
        if (h.size() < pts.size() && pts.size() > 2) nontrivial(text);
        bool ok = false; std::string got;
        for (size_t a : seg) {
          long double m = (h[a + 1].y - h[a].y) / (h[a + 1].x - h[a].x), o = h[a].y - m * h[a].x;
          bool good = fabsl((long double)(r - offY) - (o + m * pts.back().x)) <= tol;
          for (auto& q : pts) {
            T l = c.getLocalTime((T)q.x + offX);
            if (fabsl((long double)(l - offY) - (o + m * q.x)) > tol) good = false;
            if ((long double)(l - offY) > q.y + tol) fail("a prediction is later than a reception", text);
            got += fmt("%g->%g ", (double)(q.x / unit), (double)((l - offY) / unit));
          }
          if (fabsl(c.getSlope() - m) > 1e-12L) good = false;
          if (offX == 0 && fabsl(c.getOffset() - (double)offY - o) > tol) good = false;
          if (good) ok = true;
        }
        expect(ok, "the prediction is not the line of the hull segment at the middle", text + " predicted " + got);
        if (tooMany()) return;
      }
    });
  }
}
int main(int argc, char** argv) {
  init(argc, argv);
  bool th = thorough();
  explore<double>("double", 1.0, 0.0, 0.0, th ? 6 : 5, {1, 3}, {0, 1, 2, 4, 9}, 1e-9);
  explore<double>("double", 1.0, 0.0, 5.0, 7, {1, 2}, th ? std::vector<int>{0, 2, 5} : std::vector<int>{0, 3}, 1e-9);
  explore<double>("double", 0.125, 0.0, 0.0, th ? 5 : 4, {1, 2, 8}, {0, 1, 3, 7}, 1e-9);
  explore<double>("double", 1.0, 0.0, 0.0, 4, {1, 2, 5}, {-7, -3, 0, 2, 3}, 1e-9);
  explore<long>("int64", 1000, 0, 0, th ? 6 : 5, {1, 3}, {0, 1, 2, 9}, 2);
  explore<long>("int64", 1000000, 1300000000000000000L, 1400000000000000000L, th ? 5 : 4, {1, 3}, {0, 1, 2, 9, 40}, 2);
  return finish();
}
