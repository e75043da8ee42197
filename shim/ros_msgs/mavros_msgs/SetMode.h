// generated by shim/gen/gen_msgs.py
#ifndef SHIM_MAVROS_MSGS_SETMODE_H
#define SHIM_MAVROS_MSGS_SETMODE_H
#include <shim/base.h>
namespace mavros_msgs {
struct SetModeRequest {
  SetModeRequest() : base_mode(0) {  }
  uint8_t base_mode;
  std::string custom_mode;
  typedef boost::shared_ptr<SetModeRequest> Ptr;
  typedef boost::shared_ptr<SetModeRequest const> ConstPtr;
  bool operator==(const SetModeRequest& o_) const { (void)o_; return base_mode == o_.base_mode && custom_mode == o_.custom_mode; }
  bool operator!=(const SetModeRequest& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<SetModeRequest> SetModeRequestPtr;
typedef boost::shared_ptr<SetModeRequest const> SetModeRequestConstPtr;
struct SetModeResponse {
  SetModeResponse() : mode_sent(0) {  }
  uint8_t mode_sent;
  typedef boost::shared_ptr<SetModeResponse> Ptr;
  typedef boost::shared_ptr<SetModeResponse const> ConstPtr;
  bool operator==(const SetModeResponse& o_) const { (void)o_; return mode_sent == o_.mode_sent; }
  bool operator!=(const SetModeResponse& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<SetModeResponse> SetModeResponsePtr;
typedef boost::shared_ptr<SetModeResponse const> SetModeResponseConstPtr;
struct SetMode {
  typedef SetModeRequest Request;
  typedef SetModeResponse Response;
  Request request;
  Response response;
};
}
#endif
