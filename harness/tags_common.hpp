// Rendering of tags and boards: a pattern on a plane seen through a homography.
#pragma once
#include "vmc.hpp"
#include <Eigen/Dense>
#include <opencv2/opencv.hpp>
#include <aslam_apriltag2/TagDetector.h>
#include <functional>
namespace tags {
// colour of a tag of unit size (x right, y up, from its lower left corner): 0 black, 1 white
inline int tagColour(unsigned long long code, int d, int border, double x, double y) {
  int n = d + 2 * border, ix = (int)std::floor(x * n) - border, iy = (int)std::floor(y * n) - border;
  if (ix < 0 || iy < 0 || ix >= d || iy >= d) return 0;
  // the first bit is the one of the upper left field, rows from the top
  int k = (d - 1 - iy) * d + ix; return code >> (d * d - 1 - k) & 1;
}
// plane: world coordinates to colour; H: world to image (pixel centres at integers)
inline cv::Mat render(int w, int h, const Eigen::Matrix3d& H, const std::function<int(double, double)>& plane, int over = 4, int low = 30, int high = 225) {
  Eigen::Matrix3d I = H.inverse(); cv::Mat m(h, w, CV_8UC1);
  for (int v = 0; v < h; ++v) for (int u = 0; u < w; ++u) { int s = 0; for (int a = 0; a < over; ++a) for (int b = 0; b < over; ++b) { Eigen::Vector3d p = I * Eigen::Vector3d(u - 0.5 + (a + 0.5) / over, v - 0.5 + (b + 0.5) / over, 1); s += plane(p[0] / p[2], p[1] / p[2]); }
    m.at<uchar>(v, u) = low + (high - low) * s / (over * over); }
  return m;
}
inline Eigen::Vector2d map(const Eigen::Matrix3d& H, double x, double y) { Eigen::Vector3d p = H * Eigen::Vector3d(x, y, 1); return p.head<2>() / p[2]; }
// y up, centre (cx, cy), pixels per unit, rotation in the image, perspective terms
inline Eigen::Matrix3d view(double cx, double cy, double scale, double angle, double px = 0, double py = 0) {
  Eigen::Matrix3d A, B, P = Eigen::Matrix3d::Identity(); double c = std::cos(angle) * scale, s = std::sin(angle) * scale; A << c, -s, 0, -s, -c, 0, 0, 0, 1; B << 1, 0, cx, 0, 1, cy, 0, 0, 1; P(2, 0) = px; P(2, 1) = py; return B * A * P;
}
}
