#pragma once
#include <memory>
namespace geometry_msgs { namespace msg {
struct Quaternion
{
  using SharedPtr = std::shared_ptr<Quaternion>;
  double x {0}, y {0}, z {0}, w {1};
};
}}
