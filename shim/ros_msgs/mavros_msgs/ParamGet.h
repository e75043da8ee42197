// generated by shim/gen/gen_msgs.py
#ifndef SHIM_MAVROS_MSGS_PARAMGET_H
#define SHIM_MAVROS_MSGS_PARAMGET_H
#include <shim/base.h>
#include <mavros_msgs/ParamValue.h>
namespace mavros_msgs {
struct ParamGetRequest {
  ParamGetRequest() {  }
  std::string param_id;
  typedef boost::shared_ptr<ParamGetRequest> Ptr;
  typedef boost::shared_ptr<ParamGetRequest const> ConstPtr;
  bool operator==(const ParamGetRequest& o_) const { (void)o_; return param_id == o_.param_id; }
  bool operator!=(const ParamGetRequest& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<ParamGetRequest> ParamGetRequestPtr;
typedef boost::shared_ptr<ParamGetRequest const> ParamGetRequestConstPtr;
struct ParamGetResponse {
  ParamGetResponse() : success(0) {  }
  uint8_t success;
  mavros_msgs::ParamValue value;
  typedef boost::shared_ptr<ParamGetResponse> Ptr;
  typedef boost::shared_ptr<ParamGetResponse const> ConstPtr;
  bool operator==(const ParamGetResponse& o_) const { (void)o_; return success == o_.success && value == o_.value; }
  bool operator!=(const ParamGetResponse& o_) const { return !(*this == o_); }
};
typedef boost::shared_ptr<ParamGetResponse> ParamGetResponsePtr;
typedef boost::shared_ptr<ParamGetResponse const> ParamGetResponseConstPtr;
struct ParamGet {
  typedef ParamGetRequest Request;
  typedef ParamGetResponse Response;
  Request request;
  Response response;
};
}
#endif
