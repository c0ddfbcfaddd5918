#pragma once
namespace sensor_msgs { namespace image_encodings {
constexpr char MONO8[] = "mono8", MONO16[] = "mono16", BGR8[] = "bgr8", RGB8[] = "rgb8",
  BGRA8[] = "bgra8", RGBA8[] = "rgba8", TYPE_8UC1[] = "8UC1", TYPE_8UC3[] = "8UC3";
}}
