// Stand-in for cv_bridge: the part of its interface that image nodes use.
#pragma once
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <opencv2/opencv.hpp>
#include "sensor_msgs/image_encodings.hpp"
#include "sensor_msgs/msg/image.hpp"
#include "std_msgs/msg/header.hpp"
namespace cv_bridge
{
class Exception : public std::runtime_error { public: using std::runtime_error::runtime_error; };

inline int getCvType(const std::string & encoding)
{
  if (encoding == "mono8" || encoding == "8UC1") {return CV_8UC1;}
  if (encoding == "bgr8" || encoding == "rgb8" || encoding == "8UC3") {return CV_8UC3;}
  if (encoding == "bgra8" || encoding == "rgba8" || encoding == "8UC4") {return CV_8UC4;}
  if (encoding == "mono16" || encoding == "16UC1") {return CV_16UC1;}
  if (encoding == "32FC1") {return CV_32FC1;}
  throw Exception("Unrecognized image encoding [" + encoding + "]");
}

class CvImage;
typedef std::shared_ptr<CvImage> CvImagePtr;
typedef std::shared_ptr<CvImage const> CvImageConstPtr;

inline cv::Mat convert(const cv::Mat & in, const std::string & from, const std::string & to)
{
  if (from == to) {return in.clone();}
  cv::Mat out;
  auto is = [&](const char * a, const char * b) {return from == a && to == b;};
  if (is("mono8", "8UC1") || is("8UC1", "mono8") || is("8UC3", "bgr8") || is("bgr8", "8UC3")) {
    return in.clone();
  }
  if (is("bgr8", "mono8")) {
    cv::cvtColor(in, out, cv::COLOR_BGR2GRAY);
  } else if (is("rgb8", "mono8")) {
    cv::cvtColor(in, out, cv::COLOR_RGB2GRAY);
  } else if (is("bgra8", "mono8")) {
    cv::cvtColor(in, out, cv::COLOR_BGRA2GRAY);
  } else if (is("rgba8", "mono8")) {
    cv::cvtColor(in, out, cv::COLOR_RGBA2GRAY);
  } else if (is("mono8", "bgr8") || is("mono8", "rgb8")) {
    cv::cvtColor(in, out, cv::COLOR_GRAY2BGR);
  } else if (is("bgr8", "rgb8") || is("rgb8", "bgr8")) {
    cv::cvtColor(in, out, cv::COLOR_BGR2RGB);
  } else if (is("mono16", "mono8")) {
    in.convertTo(out, CV_8UC1, 255. / 65535.);
  } else {
    throw Exception("[" + from + "] cannot be converted to [" + to + "]");
  }
  return out;
}

class CvImage
{
public:
  std_msgs::msg::Header header;
  std::string encoding;
  cv::Mat image;
  CvImage() {}
  CvImage(const std_msgs::msg::Header & h, const std::string & e, const cv::Mat & i = cv::Mat())
  : header(h), encoding(e), image(i) {}

  void toImageMsg(sensor_msgs::msg::Image & msg) const
  {
    msg.header = header;
    msg.height = image.rows;
    msg.width = image.cols;
    msg.encoding = encoding;
    msg.is_bigendian = false;
    msg.step = image.cols * image.elemSize();
    size_t size = size_t(msg.step) * image.rows;
    msg.data.resize(size);
    for (int r = 0; r < image.rows; ++r) {
      std::memcpy(msg.data.data() + size_t(msg.step) * r, image.ptr(r), msg.step);
    }
  }
  sensor_msgs::msg::Image::SharedPtr toImageMsg() const
  {
    auto p = std::make_shared<sensor_msgs::msg::Image>();
    toImageMsg(*p);
    return p;
  }
};

inline CvImagePtr toCvCopy(const sensor_msgs::msg::Image & src, const std::string & encoding = "")
{
  int type = getCvType(src.encoding);
  size_t elem = CV_ELEM_SIZE(type);
  if (src.step < src.width * elem) {throw Exception("Image is wrongly formed: step < width");}
  if (size_t(src.height) * src.step != src.data.size()) {
    throw Exception("Image is wrongly formed: height * step != size");
  }
  cv::Mat view(src.height, src.width, type, const_cast<uint8_t *>(src.data.data()), src.step);
  auto out = std::make_shared<CvImage>();
  out->header = src.header;
  out->encoding = encoding.empty() ? src.encoding : encoding;
  out->image = convert(view, src.encoding, out->encoding);
  return out;
}
inline CvImagePtr toCvCopy(
  const sensor_msgs::msg::Image::ConstSharedPtr & src, const std::string & encoding = "")
{
  return toCvCopy(*src, encoding);
}
inline CvImageConstPtr toCvShare(
  const sensor_msgs::msg::Image::ConstSharedPtr & src, const std::string & encoding = "")
{
  return toCvCopy(*src, encoding);
}
inline CvImagePtr cvtColor(const CvImageConstPtr & src, const std::string & encoding)
{
  return std::make_shared<CvImage>(
    src->header, encoding, convert(src->image, src->encoding, encoding));
}
}
