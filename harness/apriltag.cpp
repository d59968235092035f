// The tag detector: codes and their decoding, the structures it is built on,
// and the detection of rendered tags.
#include "tags_common.hpp"
#include <aslam_apriltag2/Tag16h5.h>
#include <aslam_apriltag2/Tag25h7.h>
#include <aslam_apriltag2/Tag25h9.h>
#include <aslam_apriltag2/Tag36h9.h>
#include <aslam_apriltag2/Tag36h11.h>
#include <aslam_apriltag2/UnionFindSimple.h>
#include <aslam_apriltag2/Gridder.h>
#include <aslam_apriltag2/Gaussian.h>
#include <aslam_apriltag2/FloatImage.h>
#include <aslam_apriltag2/GLine2D.h>
#include <aslam_apriltag2/GLineSegment2D.h>
#include <aslam_apriltag2/GrayModel.h>
#include <aslam_apriltag2/MathUtil.h>
#include <aslam_apriltag2/Homography33.h>
using namespace AprilTags; using namespace vmc;
typedef unsigned long long W; typedef std::pair<float, float> P2;
static W turned(W w, int d) { W r = 0; for (int y = 0; y < d; ++y) for (int x = 0; x < d; ++x) /* row y from the bottom, column x from the right */ if (w >> (y * d + x) & 1) r |= W(1) << (x * d + (d - 1 - y)); return r; }
static int weight(W w) { int n = 0; for (int i = 0; i < 64; ++i) n += w >> i & 1; return n; }
struct Fam { const char* name; const TagCodes* codes; };
static std::vector<Fam> families() { return {{"36h11", &tagCodes36h11}, {"16h5", &tagCodes16h5}, {"25h7", &tagCodes25h7}, {"25h9", &tagCodes25h9}, {"36h9", &tagCodes36h9}}; }
static int dimension(const TagCodes& c) { int d = 1; while (d * d < c.bits) ++d; return d; }
// ---------------------------------------------------------------- words
static void words() {
  for (int d = 1; d <= 8; ++d) run(fmt("words of dimension %d", d), [&] {
    auto one = [&](W w) { transition(); W r = TagFamily::rotate90(w, d); if (r != turned(w, d)) fail("rotation", fmt("word %llx dimension %d", w, d)); if (TagFamily::popCount(w) != weight(w) || TagFamily::popCountReal(w) != weight(w)) fail("weight", fmt("word %llx", w)); state(fmt("word %d %llx", d, w)); };
    if (d <= 4) for (W w = 0; w < (W(1) << d * d); ++w) one(w); else for (int i = 0; i < d * d; ++i) for (int j = i; j < d * d; ++j) for (int k = j; k < d * d; k += thorough() ? 1 : 5) one(W(1) << i | W(1) << j | W(1) << k);
    for (int i = 0; i < 64; ++i) for (int j = 0; j < 64; ++j) { W a = (W(1) << i) | 5, b = (W(1) << j) | 3; if (TagFamily::hammingDistance(a, b) != weight(a ^ b)) fail("distance", fmt("%llx %llx", a, b)); } });
}
// ---------------------------------------------------------------- codes and decoding
static void decodeOne(const TagFamily& f, W code, int id, int rot, W errors, const std::string& h) {
  // the observed word: the code as seen when the tag is turned so that rot quarter turns restore it
  W seen = code ^ errors; for (int i = 0; i < (4 - rot) % 4; ++i) seen = turned(seen, f.dimension); int n = weight(errors); TagDetection det; f.decode(det, seen); transition();
  if (det.id != id || det.hammingDistance != n || (n == 0 && det.rotation != rot) || det.rotation != rot) fail("decode", h + fmt(" id %d turned by %d with errors %llx: decoded as %d turned by %d at distance %d", id, rot, errors, det.id, det.rotation, det.hammingDistance));
  if (det.good != (n <= f.errorRecoveryBits)) fail("accepted", h + fmt(" %d errors of %d: %d", n, f.errorRecoveryBits, (int)det.good));
  if (det.obsCode != seen || det.code != code) fail("decode", h + " the codes reported"); state(fmt("%s %d %d %llx %d", h.c_str(), id, rot, errors, f.errorRecoveryBits)); if (n) nontrivial(hashStr(fmt("%s %d %d %llx", h.c_str(), id, rot, errors)));
}
static void codes() {
  for (auto& F : families()) { int d = dimension(*F.codes), n = F.codes->codes.size(); std::string name = F.name;
    run("distances " + name, [&] { beat(); auto& c = F.codes->codes; int min = 99; for (int i = 0; i < n; ++i) { W r = c[i]; for (int k = 0; k < 4; ++k, r = turned(r, d)) for (int j = i; j < n; ++j) if (j != i || k) { transition(); int w = __builtin_popcountll(r ^ c[j]); if (w < min) min = w; if (w < F.codes->minHammingDistance) { fail("codes-too-close", fmt("%s ids %d and %d turned %d: %d", F.name, i, j, k, w)); return; } } } note("distance " + name, min); state("family " + name + fmt(" %d", n)); });
    int step = thorough() ? 1 : n > 600 ? 40 : 8;
    for (int id0 = 0; id0 < n; id0 += 16) run(fmt("decode %s from %d", F.name, id0), [&] { beat(); int can = (F.codes->minHammingDistance - 1) / 2; TagFamily f(*F.codes, 2); expect(f.dimension == d && f.bits == d * d && f.errorRecoveryBits == 1 && f.blackBorder == 2, "family", name);
      for (int id = id0; id < std::min(n, id0 + 16); ++id) for (int rot = 0; rot < 4; ++rot) { f.setErrorRecoveryBits(1); decodeOne(f, F.codes->codes[id], id, rot, 0, name); if (id % step && n > 64) continue;
        for (int a = 0; a < d * d; ++a) { decodeOne(f, F.codes->codes[id], id, rot, W(1) << a, name); if (can >= 2 && (id % (8 * step) == 0 || n < 64)) for (int b = a + 1; b < d * d; ++b) { W e = W(1) << a | W(1) << b; f.setErrorRecoveryBits((a + b) % 4); decodeOne(f, F.codes->codes[id], id, rot, e, name); if (can >= 3 && id % 64 == 0 && thorough()) for (int c = b + 1; c < d * d; c += 3) decodeOne(f, F.codes->codes[id], id, rot, e | W(1) << c, name); f.setErrorRecoveryBits(1); } } }
      for (int q = 0; q <= 4; ++q) { f.setErrorRecoveryFraction(q / 4.f); expect(f.errorRecoveryBits == (int)(can * (q / 4.f)), "recovery-fraction", name); } });
  }
}
// ---------------------------------------------------------------- structures
static void unionFind() {
  for (int n = 2; n <= 5; ++n) { int depth = n == 2 ? 6 : n == 3 ? 5 : n == 4 ? (thorough() ? 5 : 4) : (thorough() ? 4 : 3); std::vector<int> w;
    std::function<void(int)> go = [&](int left) { run(fmt("union of %d:", n) + [&] { std::string s; for (int x : w) s += fmt(" %d-%d", x / n, x % n); return s; }(), [&] { UnionFindSimple uf(n); std::vector<int> set(n); for (int i = 0; i < n; ++i) set[i] = i; std::string h;
        for (int x : w) { int a = x / n, b = x % n; transition(); int r = uf.connectNodes(a, b); int sa = set[a], sb = set[b]; for (int& s : set) if (s == sa) s = sb; expect(r == uf.getRepresentative(a) && r == uf.getRepresentative(b), "union", "the returned node is not the one of the union"); }
        for (int i = 0; i < n; ++i) { int c = 0; for (int j = 0; j < n; ++j) { c += set[i] == set[j]; expect((uf.getRepresentative(i) == uf.getRepresentative(j)) == (set[i] == set[j]), "union", fmt("nodes %d and %d", i, j)); h += fmt("%d", set[i] == set[j]); } expect(uf.getSetSize(i) == c, "union", fmt("size of the set of %d", i)); expect(set[uf.getRepresentative(i)] == set[i], "union", "representative of another set"); h += fmt(",%d ", uf.getRepresentative(i)); }
        state(fmt("union %d ", n) + h); });
      if (left) for (int x = 0; x < n * n; ++x) { w.push_back(x); go(left - 1); w.pop_back(); } };
    go(depth); }
}
static void gridder() {
  struct O { float x, y; }; static const float pos[] = {0, 4.9f, 5, 9.99f, 10, 14, 19.9f}; 
  for (int set = 0; set < 128; ++set) run(fmt("grid %d", set), [&] { std::vector<O> o; for (int i = 0; i < 7; ++i) if (set >> i & 1) { o.push_back({pos[i], pos[(i * 3) % 7]}); o.push_back({pos[i], pos[(i * 2 + 1) % 7]}); }
    for (float cell : {5.f, 7.f, 30.f}) { Gridder<O> g(0, 0, 20, 15, cell); for (auto& x : o) g.add(x.x, x.y, &x);
      for (float qx : {-3.f, 0.f, 5.f, 9.f, 12.f, 19.f, 26.f}) for (float qy : {-2.f, 5.f, 14.f, 22.f}) for (float r : {0.f, 1.f, 5.f, 12.f, 50.f}) { transition(); std::multiset<const O*> got; auto it = g.find(qx, qy, r); while (it.hasNext()) got.insert(&it.next()); expect(!it.hasNext(), "grid", "elements after the end");
        for (auto& x : o) { bool near = std::abs(x.x - qx) <= r && std::abs(x.y - qy) <= r && x.x <= 20 && x.y <= 15; if ((near && !got.count(&x)) || got.count(&x) > 1) fail("grid", fmt("object at %g,%g, query %g,%g range %g cell %g: found %d times", x.x, x.y, qx, qy, r, cell, (int)got.count(&x))); }
        state(fmt("grid %d %g %g %g %g %zu", set, cell, qx, qy, r, got.size())); } } });
}
static void filters() {
  run("filters", [&] {
    for (float s : {0.f, 0.5f, 0.8f, 2.f}) for (int n : {1, 3, 5, 7}) { auto f = Gaussian::makeGaussianFilter(s, n); double sum = 0; for (int i = 0; i < n; ++i) { sum += f[i]; expect(f[i] == f[n - 1 - i] && f[i] <= f[n / 2], "filter", fmt("sigma %g size %d", s, n)); if (s > 0) expectNear(f[i] / f[n / 2], std::exp(-(i - n / 2) * (i - n / 2) / (2.0 * s * s)), 1e-6, "filter", fmt("sigma %g size %d", s, n)); } expectNear(sum, 1, 1e-6, "filter", "sum"); transition(); state(fmt("filter %g %d", s, n)); } });
  for (int n : {1, 3, 5}) for (int len = n; len <= 8; ++len) run(fmt("convolution of %d with %d", len, n), [&] { std::vector<float> f(n); for (int i = 0; i < n; ++i) f[i] = 0.1f * (i + 1) + (i == n / 2);
    for (int off : {0, 1, 3, 8, 16}) for (int one = -1; one < len; ++one) { std::vector<float> a(off + len + 4), r(a.size() + 3, -7); for (size_t i = 0; i < a.size(); ++i) a[i] = (int)i < off || (int)i >= off + len ? 1000 : one < 0 ? 1 + (i * 5) % 7 : (int)i - off == one; int roff = off + 2; Gaussian::convolveSymmetricCentered(a, off, len, f, r, roff); transition();
      for (int i = 0; i < (int)r.size(); ++i) { int x = i - roff; if (x < 0 || x >= len) { expect(r[i] == -7, "convolution", "wrote outside"); continue; } double want = 0; for (int j = 0; j < n; ++j) want += f[j] * a[off + std::min(len - 1, std::max(0, x + n / 2 - j))]; if (std::abs(r[i] - want) > 1e-4) fail("convolution", fmt("length %d filter %d offset %d element %d: %g, not %g", len, n, off, x, r[i], want)); }
      state(fmt("convolution %d %d %d %d", n, len, off, one)); } });
  for (int w = 3; w <= 6; ++w) for (int h = 3; h <= 6; ++h) run(fmt("image %dx%d", w, h), [&] { for (int seed = 0; seed < 4; ++seed) { std::vector<float> fh = {0.2f, 0.5f, 0.3f}, fv = {0.1f, 0.8f, 0.1f}; FloatImage a(w, h); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) a.set(x, y, ((x * 7 + y * 13 + seed * 5) % 11) / 10.f); FloatImage b = a; b.filterFactoredCentered(fh, fv); transition(); auto cl = [](int i, int n) { return std::min(n - 1, std::max(0, i)); };
      for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double want = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) want += fh[i] * fv[j] * a.get(cl(x + 1 - i, w), cl(y + 1 - j, h)); if (std::abs(b.get(x, y) - want) > 1e-4) fail("convolution", fmt("image %dx%d pixel %d,%d: %g, not %g", w, h, x, y, b.get(x, y), want)); }
      FloatImage c = a; c.decimateAvg(); expect(c.getWidth() == w / 2 && c.getHeight() == h / 2, "decimate", "size"); for (int y = 0; y < h / 2; ++y) for (int x = 0; x < w / 2; ++x) expect(c.get(x, y) == a.get(2 * x, 2 * y), "decimate", fmt("%d,%d", x, y));
      FloatImage n = a; n.normalize(); float lo = 9, hi = -9; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { lo = std::min(lo, a.get(x, y)); hi = std::max(hi, a.get(x, y)); } for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) expectNear(n.get(x, y), (a.get(x, y) - lo) / (hi - lo), 1e-5, "normalize", fmt("%d,%d", x, y)); state(fmt("image %d %d %d", w, h, seed)); } });
}
static void geometry() {
  run("angles", [&] { for (int i = -400; i <= 400; ++i) { float v = i * 0.05f, m = MathUtil::mod2pi(v); transition(); expect(std::abs(m) <= M_PI + 1e-4, "angle", fmt("%g", v)); expectNear(std::cos(m), std::cos(v), 2e-5, "angle", fmt("%g", v)); expectNear(std::sin(m), std::sin(v), 2e-5, "angle", fmt("%g", v)); for (int j = -10; j <= 10; ++j) { float ref = j * 0.9f, x = MathUtil::mod2pi(ref, v); expect(std::abs(x - ref) <= M_PI + 1e-4, "angle", fmt("%g about %g", v, ref)); expectNear(std::cos(x), std::cos(v), 3e-5, "angle", fmt("%g", v)); } expectNear(std::remainder(MathUtil::fast_atan2(std::sin(v), std::cos(v)) - v, 2 * M_PI), 0, 0.08, "angle", fmt("fast atan2 of %g", v)); state(fmt("angle %d", i)); } });
  run("lines", [&] { std::vector<P2> p; for (int x = -2; x <= 2; ++x) for (int y = -1; y <= 2; ++y) p.push_back(P2(x * 3 + y * 0.5f, y * 4 - x)); int n = p.size();
    for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (a != b) { GLine2D l(p[a], p[b]); for (float t : {-2.f, 0.f, 1.5f}) { GLine2D m = l; P2 q = m.getPointOfCoordinate(t); GLine2D k = l; expectNear(k.getLineCoordinate(q), t, 1e-3, "line", "coordinate of its point"); double cr = (p[b].first - p[a].first) * (q.second - p[a].second) - (p[b].second - p[a].second) * (q.first - p[a].first); expectNear(cr, 0, 1e-2, "line", "point on the line"); transition(); }
      for (int c = 0; c < n; ++c) for (int d = 0; d < n; d += 3) if (c != d) { GLine2D k(p[c], p[d]); double ux = p[b].first - p[a].first, uy = p[b].second - p[a].second, vx = p[d].first - p[c].first, vy = p[d].second - p[c].second, det = uy * vx - ux * vy; P2 i = l.intersectionWith(k); transition(); if (std::abs(det) < 1e-6) { expect(i == P2(-1, 0), "line", "parallel lines"); continue; } double wx = p[c].first - p[a].first, wy = p[c].second - p[a].second, t = (wy * vx - wx * vy) / det; expectNear(i.first, p[a].first + t * ux, 1e-2, "intersection", ""); expectNear(i.second, p[a].second + t * uy, 1e-2, "intersection", ""); }
      std::vector<XYWeight> pts; for (int k = 0; k <= 4; ++k) pts.push_back(XYWeight(p[a].first + k * (p[b].first - p[a].first) / 4, p[a].second + k * (p[b].second - p[a].second) / 4, 0.1f + 0.3f * ((k * 3) % 4))); auto s = GLineSegment2D::lsqFitXYW(pts); double d1 = MathUtil::distance2D(s.getP0(), p[a]) + MathUtil::distance2D(s.getP1(), p[b]), d2 = MathUtil::distance2D(s.getP0(), p[b]) + MathUtil::distance2D(s.getP1(), p[a]); expectNear(std::min(d1, d2), 0, 5e-2, "segment", fmt("points %d %d", a, b)); state(fmt("line %d %d", a, b)); } });
  run("gray", [&] { for (int s = 0; s < 81; ++s) { double v[4] = {(s % 3 - 1) * 0.7, (s / 3 % 3 - 1) * 0.4, (s / 9 % 3 - 1) * 0.9, (s / 27) * 0.5}; auto f = [&](double x, double y) { return v[0] * x + v[1] * y + v[2] * x * y + v[3]; }; GrayModel g; double sum = 0; int n = 0;
      for (int y = 0; y < 3; ++y) for (int x = 0; x < 3; ++x) { g.addObservation(x * 0.4f, y * 0.3f, f(x * 0.4, y * 0.3)); sum += f(x * 0.4, y * 0.3); ++n; transition(); if (n < 6) expectNear(g.interpolate(0.3f, 0.2f), sum / n, 1e-5, "gray", "mean of few observations"); else for (double q : {0., 0.25, 1.3}) expectNear(g.interpolate(q, 1 - q), f(q, 1 - q), 1e-4, "gray", fmt("after %d observations", n)); } state(fmt("gray %d", s)); } });
  for (int s = 0; s < 81; ++s) run(fmt("homography %d", s), [&] { std::vector<P2> src = {P2(-1, -1), P2(1, -1), P2(1, 1), P2(-1, 1)}, dst = {P2(10 + s % 3 * 4, 12 + s / 3 % 3 * 5), P2(80 + s / 9 % 3 * 7, 20), P2(90, 70 + s / 27 * 10), P2(5, 75)}; Homography33 H(P2(50, 40)); H.setCorrespondences(src, dst); for (int i = 0; i < 4; ++i) { P2 q = H.project(src[i].first, src[i].second); expectNear(q.first, dst[i].first, 1e-2, "homography", ""); expectNear(q.second, dst[i].second, 1e-2, "homography", ""); transition(); } expect(H.getCXY() == P2(50, 40), "homography", "centre"); state(fmt("homography %d", s)); });
  for (int s = 0; s < 27; ++s) run(fmt("relative pose %d", s), [&] { Eigen::Vector3d t((s % 3 - 1) * 0.2, (s / 3 % 3 - 1) * 0.15, 1.2); double a = (s / 9 - 1) * 0.4; Eigen::Matrix3d R = (Eigen::AngleAxisd(a, Eigen::Vector3d(0.6, 0.8, 0)) * Eigen::AngleAxisd(0.3 * s, Eigen::Vector3d::UnitZ())).toRotationMatrix(); TagDetection d(3); double size = 0.4, fx = 400, fy = 420, cx = 320, cy = 240; double c[4][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}}; for (int i = 0; i < 4; ++i) { Eigen::Vector3d q = R * Eigen::Vector3d(c[i][0] * size / 2, c[i][1] * size / 2, 0) + t; d.p[i] = P2(fx * q[0] / q[2] + cx, fy * q[1] / q[2] + cy); }
    if (s / 9 == 1) return; // seen from the front the pose of four points is not accurate
    Eigen::Matrix4d T = d.getRelativeTransform(size, fx, fy, cx, cy), want = Eigen::Matrix4d::Identity(); want.topLeftCorner(3, 3) = R; want.topRightCorner(3, 1) = t; if (!T.isApprox(want, 2e-3)) fail("relative-pose", fmt("case %d differs by %g", s, (T - want).norm())); Eigen::Vector3d tr; Eigen::Matrix3d rot; d.getRelativeTranslationRotation(size, fx, fy, cx, cy, tr, rot); if ((tr - Eigen::Vector3d(t[2], -t[0], -t[1])).norm() > 5e-3 || !rot.isApprox(R, 2e-3)) fail("relative-pose", "as translation and rotation"); transition(); state(fmt("pose %d", s)); });
}
// ---------------------------------------------------------------- detection
static void checkDetection(const TagDetection& d, const Eigen::Matrix3d& H, double x0, double y0, const std::string& h, double tol) {
  static const double c[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}}; for (int i = 0; i < 4; ++i) { Eigen::Vector2d q = tags::map(H, x0 + c[i][0], y0 + c[i][1]); double e = std::hypot(d.p[i].first - q[0], d.p[i].second - q[1]); if (e > tol) { fail("corner", h + fmt(" corner %d at %.2f,%.2f, not %.2f,%.2f", i, d.p[i].first, d.p[i].second, q[0], q[1])); return; } P2 m = d.interpolate(2 * c[i][0] - 1, 2 * c[i][1] - 1); if (std::hypot(m.first - q[0], m.second - q[1]) > tol + 0.5) fail("homography", h + fmt(" corner %d", i)); }
  Eigen::Vector2d q = tags::map(H, x0 + 0.5, y0 + 0.5); if (std::hypot(d.cxy.first - q[0], d.cxy.second - q[1]) > tol + 1) fail("centre", h);
}
static void detect() {
  auto& c = tagCodes36h11; int n = c.codes.size();
  for (int id = 0; id < n; ++id) for (int rot = 0; rot < 4; ++rot) for (int border = 1; border <= 2; ++border) { if (!thorough() && (id * 3 + rot + border) % 4) continue;
    run(fmt("tag %d turned %d border %d", id, rot, border), [&] { beat(); TagDetector det(c, border); double scale = (6 + 2 * border) * 5; int size = scale + 40; Eigen::Matrix3d H = tags::view(size / 2 + 0.3 * (id % 4), size / 2 - 0.2 * (id % 3), scale, rot * M_PI / 2 + 0.02 * (id % 5 - 2)) * (Eigen::Matrix3d() << 1, 0, -0.5, 0, 1, -0.5, 0, 0, 1).finished();
      // no error, one (repaired), or two (rejected)
      for (int e = 0; e < 3; ++e) { W code = c.codes[id]; for (int k = 0; k < e; ++k) code ^= W(1) << ((id * 5 + k * 17 + rot) % 36); cv::Mat m = tags::render(size, size, H, [&](double x, double y) { return x < 0 || y < 0 || x > 1 || y > 1 ? 1 : tags::tagColour(code, 6, border, x, y); }); auto d = det.extractTags(m); std::string h = fmt("tag %d turned %d border %d errors %d", id, rot, border, e); transition(); state(h); nontrivial(hashStr(h));
        if (e == 2) { expect(d.empty(), "wrong-tag", h + " was accepted"); continue; }
        if (d.size() != 1 || d[0].id != id || d[0].hammingDistance != e || !d[0].good) { fail("tag", h + fmt(": %zu detections", d.size())); continue; }
        checkDetection(d[0], H, 0, 0, h, 1.0);
        if (id % 16 == 0 && e == 0) { // the same image as part of a larger one
          cv::Mat big(size + 20, size + 31, CV_8UC1, cv::Scalar(200)); cv::Mat part = big(cv::Rect(9, 7, size, size)); m.copyTo(part); auto d2 = det.extractTags(part); if (d2.size() != 1 || d2[0].id != id) fail("part-of-image", h + fmt(": %zu detections", d2.size())); else checkDetection(d2[0], H, 0, 0, h, 1.0); } } }); }
  // several tags under perspective, the same one twice, tags next to each other
  for (int s = 0; s < (thorough() ? 96 : 24); ++s) run(fmt("scene %d", s), [&] { beat(); TagDetector det(c, 2); int ids[4] = {s * 5 % n, (s * 7 + 1) % n, s % 3 ? (s * 11 + 2) % n : s * 5 % n, (s * 13 + 300) % n}; Eigen::Matrix3d H = tags::view(160, 120, 70, s * 0.26, 0.04 * (s % 3 - 1), 0.03 * (s % 5 - 2)); 
    auto at = [&](int i, double x, double y) { return std::pair<double, double>(x - (i % 2 ? 0.15 : -1.15), y - (i / 2 ? 0.15 : -1.15)); };
    cv::Mat m = tags::render(320, 240, H, [&](double x, double y) { for (int i = 0; i < 4; ++i) { auto p = at(i, x, y); if (p.first >= 0 && p.second >= 0 && p.first <= 1 && p.second <= 1) return tags::tagColour(c.codes[ids[i]], 6, 2, p.first, p.second); } return 1; }, 3);
    auto d = det.extractTags(m); std::string h = fmt("scene %d", s); transition(); state(h); nontrivial(hashStr(h)); std::set<int> seen;
    for (int i = 0; i < 4; ++i) { double x0 = i % 2 ? 0.15 : -1.15, y0 = i / 2 ? 0.15 : -1.15; bool inside = true; for (int k = 0; k < 4; ++k) { Eigen::Vector2d q = tags::map(H, x0 + (k % 2), y0 + k / 2); inside &= q[0] > 8 && q[1] > 8 && q[0] < 312 && q[1] < 232; } int found = 0; Eigen::Vector2d mid = tags::map(H, x0 + 0.5, y0 + 0.5); for (size_t k = 0; k < d.size(); ++k) if (std::hypot(d[k].cxy.first - mid[0], d[k].cxy.second - mid[1]) < 15) { ++found; seen.insert(k); if (d[k].id != ids[i]) fail("tag", h + fmt(": tag %d read as %d", ids[i], d[k].id)); else if (inside) checkDetection(d[k], H, x0, y0, h + fmt(" tag %d", i), 1.5); } if (inside && found != 1) fail("tag", h + fmt(": tag %d found %d times", i, found)); }
    expect(seen.size() == d.size(), "wrong-tag", h + " a tag where there is none"); });
  // images without tags
  for (int s = 0; s < 40; ++s) run(fmt("no tag %d", s), [&] { TagDetector det(c, 2); cv::Mat m(60 + s, 90 - s, CV_8UC1); for (int y = 0; y < m.rows; ++y) for (int x = 0; x < m.cols; ++x) m.at<uchar>(y, x) = s % 4 == 0 ? s * 6 : s % 4 == 1 ? ((x / 9 + y / 9) % 2) * 200 : s % 4 == 2 ? (x * 37 + y * 91 + x * y * s) % 256 : (x > 20 && x < 45 && y > 15 && y < 40 ? 20 : 220); auto d = det.extractTags(m); expect(d.empty(), "wrong-tag", fmt("image %d without a tag", s)); transition(); state(fmt("no tag %d", s)); });
}
int main(int argc, char** argv) { init(argc, argv); cv::setNumThreads(1); words(); codes(); unionFind(); gridder(); filters(); geometry(); detect(); return finish(); }
