// A stand-in for the parts of OpenCV that sm_opencv uses, with OpenCV's semantics of
// two-dimensional matrices: shared reference-counted data, sub-matrices that keep the
// step of their parent, create() that keeps matching storage, single rows that count
// as continuous.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <stdexcept>
typedef unsigned char uchar;
#define CV_8U 0
#define CV_8S 1
#define CV_16U 2
#define CV_16S 3
#define CV_32S 4
#define CV_32F 5
#define CV_64F 6
#define CV_MAKETYPE(depth, cn) (((depth) & 7) + (((cn) - 1) << 3))
#define CV_8UC1 CV_MAKETYPE(CV_8U, 1)
#define CV_8UC3 CV_MAKETYPE(CV_8U, 3)
#define CV_16SC1 CV_MAKETYPE(CV_16S, 1)
#define CV_32FC1 CV_MAKETYPE(CV_32F, 1)
#define CV_32FC2 CV_MAKETYPE(CV_32F, 2)
#define CV_64FC1 CV_MAKETYPE(CV_64F, 1)
#define CV_64FC4 CV_MAKETYPE(CV_64F, 4)
namespace cv {
struct Point2f { float x, y; Point2f(float x = 0, float y = 0) : x(x), y(y) {} };
struct Rect { int x, y, width, height; Rect(int x, int y, int w, int h) : x(x), y(y), width(w), height(h) {} };
class Mat {
  int type_; std::shared_ptr<uchar> buf_;
 public:
  int dims, rows, cols; uchar* data; size_t step;
  Mat() : type_(0), dims(0), rows(0), cols(0), data(0), step(0) {}
  Mat(int r, int c, int t) : type_(0), dims(0), rows(0), cols(0), data(0), step(0) { create(r, c, t); }
  int type() const { return type_; }
  int depth() const { return type_ & 7; }
  int channels() const { return (type_ >> 3) + 1; }
  size_t elemSize1() const { static const int s[] = {1, 1, 2, 2, 4, 4, 8, 2}; return s[depth()]; }
  size_t elemSize() const { return elemSize1() * channels(); }
  size_t total() const { return (size_t)rows * cols; }
  bool empty() const { return !data || total() == 0; }
  bool isContinuous() const { return rows <= 1 || step == cols * elemSize(); }
  void release() { buf_.reset(); data = 0; rows = cols = 0; }
  void create(int r, int c, int t) {
    if (dims == 2 && r == rows && c == cols && t == type_ && data) return;
    release(); type_ = t; dims = 2; rows = r; cols = c; step = c * elemSize();
    if (r < 0 || c < 0) throw std::invalid_argument("negative size");
    size_t n = step * r; if (n) { buf_.reset((uchar*)malloc(n), free); data = buf_.get(); }
  }
  uchar* ptr(int r = 0) { return data + step * r; }
  const uchar* ptr(int r = 0) const { return data + step * r; }
  void copyTo(Mat& m) const { Mat s = *this; m.create(s.rows, s.cols, s.type_); for (int r = 0; r < s.rows && s.cols; ++r) memcpy(m.ptr(r), s.ptr(r), s.cols * s.elemSize()); }
  Mat clone() const { Mat m; copyTo(m); return m; }
  Mat operator()(const Rect& q) const {
    if (q.x < 0 || q.y < 0 || q.width < 0 || q.height < 0 || q.x + q.width > cols || q.y + q.height > rows) throw std::invalid_argument("outside");
    Mat m = *this; m.rows = q.height; m.cols = q.width; m.data = data + q.y * step + q.x * elemSize(); if (!q.width || !q.height) m.release(); return m;
  }
};
}
