#pragma once
namespace google {
namespace protobuf {
class Empty
{
};
} // namespace protobuf
} // namespace google
