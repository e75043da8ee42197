#!/usr/bin/env python3
"""Generates the stand-in ROS message headers in ../ros_msgs from a compact spec.
Run by hand when the spec changes; the output is committed."""
import os, re
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'ros_msgs')
SPEC = r'''
std_msgs/Header: uint32 seq; time stamp; string frame_id
std_msgs/Bool: bool data
std_msgs/Float64: float64 data
std_msgs/Float32: float32 data
std_msgs/String: string data
std_msgs/UInt32: uint32 data
std_msgs/Int32: int32 data
std_msgs/ColorRGBA: float32 r; float32 g; float32 b; float32 a
std_msgs/MultiArrayDimension: string label; uint32 size; uint32 stride
std_msgs/MultiArrayLayout: std_msgs/MultiArrayDimension[] dim; uint32 data_offset
std_msgs/Float64MultiArray: std_msgs/MultiArrayLayout layout; float64[] data
std_msgs/Float32MultiArray: std_msgs/MultiArrayLayout layout; float32[] data
std_msgs/Int64MultiArray: std_msgs/MultiArrayLayout layout; int64[] data
std_msgs/Int32MultiArray: std_msgs/MultiArrayLayout layout; int32[] data
geometry_msgs/Point: float64 x; float64 y; float64 z
geometry_msgs/Vector3: float64 x; float64 y; float64 z
geometry_msgs/Quaternion: float64 x; float64 y; float64 z; float64 w
geometry_msgs/Pose: geometry_msgs/Point position; geometry_msgs/Quaternion orientation
geometry_msgs/PoseStamped: std_msgs/Header header; geometry_msgs/Pose pose
geometry_msgs/PoseArray: std_msgs/Header header; geometry_msgs/Pose[] poses
geometry_msgs/PointStamped: std_msgs/Header header; geometry_msgs/Point point
geometry_msgs/Vector3Stamped: std_msgs/Header header; geometry_msgs/Vector3 vector
geometry_msgs/QuaternionStamped: std_msgs/Header header; geometry_msgs/Quaternion quaternion
geometry_msgs/Twist: geometry_msgs/Vector3 linear; geometry_msgs/Vector3 angular
geometry_msgs/TwistStamped: std_msgs/Header header; geometry_msgs/Twist twist
geometry_msgs/Transform: geometry_msgs/Vector3 translation; geometry_msgs/Quaternion rotation
geometry_msgs/TransformStamped: std_msgs/Header header; string child_frame_id; geometry_msgs/Transform transform
geometry_msgs/PoseWithCovariance: geometry_msgs/Pose pose; float64[36] covariance
geometry_msgs/TwistWithCovariance: geometry_msgs/Twist twist; float64[36] covariance
nav_msgs/Path: std_msgs/Header header; geometry_msgs/PoseStamped[] poses
nav_msgs/GridCells: std_msgs/Header header; float32 cell_width; float32 cell_height; geometry_msgs/Point[] cells
nav_msgs/Odometry: std_msgs/Header header; string child_frame_id; geometry_msgs/PoseWithCovariance pose; geometry_msgs/TwistWithCovariance twist
sensor_msgs/PointField: const uint8 INT8=1; const uint8 UINT8=2; const uint8 INT16=3; const uint8 UINT16=4; const uint8 INT32=5; const uint8 UINT32=6; const uint8 FLOAT32=7; const uint8 FLOAT64=8; string name; uint32 offset; uint8 datatype; uint32 count
sensor_msgs/PointCloud2: std_msgs/Header header; uint32 height; uint32 width; sensor_msgs/PointField[] fields; bool is_bigendian; uint32 point_step; uint32 row_step; uint8[] data; bool is_dense
sensor_msgs/LaserScan: std_msgs/Header header; float32 angle_min; float32 angle_max; float32 angle_increment; float32 time_increment; float32 scan_time; float32 range_min; float32 range_max; float32[] ranges; float32[] intensities
sensor_msgs/Image: std_msgs/Header header; uint32 height; uint32 width; string encoding; uint8 is_bigendian; uint32 step; uint8[] data
sensor_msgs/RegionOfInterest: uint32 x_offset; uint32 y_offset; uint32 height; uint32 width; bool do_rectify
sensor_msgs/CameraInfo: std_msgs/Header header; uint32 height; uint32 width; string distortion_model; float64[] D; float64[9] K; float64[9] R; float64[12] P; uint32 binning_x; uint32 binning_y; sensor_msgs/RegionOfInterest roi
sensor_msgs/Range: const uint8 ULTRASOUND=0; const uint8 INFRARED=1; std_msgs/Header header; uint8 radiation_type; float32 field_of_view; float32 min_range; float32 max_range; float32 range
visualization_msgs/Marker: const uint8 ARROW=0; const uint8 CUBE=1; const uint8 SPHERE=2; const uint8 CYLINDER=3; const uint8 LINE_STRIP=4; const uint8 LINE_LIST=5; const uint8 CUBE_LIST=6; const uint8 SPHERE_LIST=7; const uint8 POINTS=8; const uint8 TEXT_VIEW_FACING=9; const uint8 MESH_RESOURCE=10; const uint8 TRIANGLE_LIST=11; const uint8 ADD=0; const uint8 MODIFY=0; const uint8 DELETE=2; const uint8 DELETEALL=3; std_msgs/Header header; string ns; int32 id; int32 type; int32 action; geometry_msgs/Pose pose; geometry_msgs/Vector3 scale; std_msgs/ColorRGBA color; duration lifetime; bool frame_locked; geometry_msgs/Point[] points; std_msgs/ColorRGBA[] colors; string text; string mesh_resource; bool mesh_use_embedded_materials
visualization_msgs/MarkerArray: visualization_msgs/Marker[] markers
mavros_msgs/PositionTarget: const uint8 FRAME_LOCAL_NED=1; const uint16 IGNORE_PX=1; const uint16 IGNORE_PY=2; const uint16 IGNORE_PZ=4; const uint16 IGNORE_VX=8; const uint16 IGNORE_VY=16; const uint16 IGNORE_VZ=32; const uint16 IGNORE_AFX=64; const uint16 IGNORE_AFY=128; const uint16 IGNORE_AFZ=256; const uint16 FORCE=512; const uint16 IGNORE_YAW=1024; const uint16 IGNORE_YAW_RATE=2048; std_msgs/Header header; uint8 coordinate_frame; uint16 type_mask; geometry_msgs/Point position; geometry_msgs/Vector3 velocity; geometry_msgs/Vector3 acceleration_or_force; float32 yaw; float32 yaw_rate
mavros_msgs/Trajectory: const uint8 MAV_TRAJECTORY_REPRESENTATION_WAYPOINTS=0; const uint8 MAV_TRAJECTORY_REPRESENTATION_BEZIER=1; std_msgs/Header header; uint8 type; mavros_msgs/PositionTarget point_1; mavros_msgs/PositionTarget point_2; mavros_msgs/PositionTarget point_3; mavros_msgs/PositionTarget point_4; mavros_msgs/PositionTarget point_5; uint8[5] point_valid; uint16[5] command; float32[5] time_horizon
mavros_msgs/ParamValue: int64 integer; float64 real
mavros_msgs/Param: std_msgs/Header header; string param_id; mavros_msgs/ParamValue value; uint16 param_index; uint16 param_count
mavros_msgs/Waypoint: uint8 frame; uint16 command; bool is_current; bool autocontinue; float32 param1; float32 param2; float32 param3; float32 param4; float64 x_lat; float64 y_long; float64 z_alt
mavros_msgs/WaypointList: uint16 current_seq; mavros_msgs/Waypoint[] waypoints
mavros_msgs/CompanionProcessStatus: const uint8 MAV_STATE_UNINIT=0; const uint8 MAV_STATE_BOOT=1; const uint8 MAV_STATE_CALIBRATING=2; const uint8 MAV_STATE_STANDBY=3; const uint8 MAV_STATE_ACTIVE=4; const uint8 MAV_STATE_CRITICAL=5; const uint8 MAV_STATE_EMERGENCY=6; const uint8 MAV_STATE_POWEROFF=7; const uint8 MAV_STATE_FLIGHT_TERMINATION=8; const uint8 MAV_COMP_ID_OBSTACLE_AVOIDANCE=196; const uint8 MAV_COMP_ID_VISUAL_INERTIAL_ODOMETRY=197; std_msgs/Header header; uint8 state; uint8 component
mavros_msgs/Altitude: std_msgs/Header header; float32 monotonic; float32 amsl; float32 local; float32 relative; float32 terrain; float32 bottom_clearance
mavros_msgs/State: std_msgs/Header header; bool connected; bool armed; bool guided; bool manual_input; string mode; uint8 system_status
octomap_msgs/Octomap: std_msgs/Header header; bool binary; string id; float64 resolution; int8[] data
'''
SRV = {
 'mavros_msgs/ParamGet': ('string param_id', 'bool success; mavros_msgs/ParamValue value'),
 'mavros_msgs/SetMode': ('uint8 base_mode; string custom_mode', 'bool mode_sent'),
}
BASE = dict(bool='uint8_t', uint8='uint8_t', int8='int8_t', uint16='uint16_t', int16='int16_t', uint32='uint32_t', int32='int32_t',
            uint64='uint64_t', int64='int64_t', float32='float', float64='double', string='std::string', time='ros::Time', duration='ros::Duration')
def ctype(t):
    m = re.match(r'^(.*?)(\[(\d*)\])?$', t)
    b, arr, n = m.group(1), m.group(2), m.group(3)
    if b == 'Header': b = 'std_msgs/Header'
    dep = None
    if b in BASE: c = BASE[b]
    else:
        c = b.replace('/', '::'); dep = b
    if arr is None: return c, dep, b in BASE and b not in ('string', 'time', 'duration'), 0
    if n: return 'boost::array<%s, %s>' % (c, n), dep, False, int(n)
    return 'std::vector<%s>' % c, dep, False, 0
def body(name, fields):
    deps, consts, decl, init, names, arrs = [], [], [], [], [], []
    for f in [x.strip() for x in fields.split(';') if x.strip()]:
        if f.startswith('const '):
            m = re.match(r'const (\S+) (\w+)=(.*)$', f)
            consts.append('  enum { %s = %s };' % (m.group(2), m.group(3)))
            continue
        t, n = f.split()
        c, dep, prim, arrn = ctype(t)
        if dep: deps.append(dep)
        decl.append('  %s %s;' % (c, n)); names.append(n)
        if prim: init.append('%s(0)' % n)
        if arrn: arrs.append('%s.assign(0);' % n)
    s = 'struct %s {\n' % name
    s += '  %s()%s { %s }\n' % (name, (' : ' + ', '.join(init)) if init else '', ' '.join(arrs))
    s += '\n'.join(consts + decl) + '\n'
    s += '  typedef boost::shared_ptr<%s> Ptr;\n  typedef boost::shared_ptr<%s const> ConstPtr;\n' % (name, name)
    s += '  bool operator==(const %s& o_) const { (void)o_; return %s; }\n' % (name, ' && '.join('%s == o_.%s' % (n, n) for n in names) or 'true')
    s += '  bool operator!=(const %s& o_) const { return !(*this == o_); }\n' % name
    s += '};\ntypedef boost::shared_ptr<%s> %sPtr;\ntypedef boost::shared_ptr<%s const> %sConstPtr;\n' % (name, name, name, name)
    return s, deps
def header(pkg, name, text, deps):
    g = ('SHIM_%s_%s_H' % (pkg, name)).upper()
    inc = ''.join('#include <%s.h>\n' % d for d in sorted(set(deps)))
    return ('// generated by shim/gen/gen_msgs.py\n#ifndef %s\n#define %s\n#include <shim/base.h>\n%snamespace %s {\n%s}\n#endif\n' % (g, g, inc, pkg, text))
def emit(root, full, fields):
    pkg, name = full.split('/')
    s, deps = body(name, fields)
    os.makedirs(os.path.join(root, pkg), exist_ok=True)
    open(os.path.join(root, pkg, name + '.h'), 'w').write(header(pkg, name, s, deps))
def emit_srv(root, full, req, res):
    pkg, name = full.split('/')
    s1, d1 = body(name + 'Request', req); s2, d2 = body(name + 'Response', res)
    s = s1 + s2 + 'struct %s {\n  typedef %sRequest Request;\n  typedef %sResponse Response;\n  Request request;\n  Response response;\n};\n' % (name, name, name)
    os.makedirs(os.path.join(root, pkg), exist_ok=True)
    open(os.path.join(root, pkg, name + '.h'), 'w').write(header(pkg, name, s, d1 + d2))
def parse_msg_file(path):
    fields = []
    for l in open(path):
        l = l.split('#')[0].strip()
        if not l: continue
        if '=' in l:
            t, rest = l.split(None, 1); fields.append('const %s %s' % (t, rest.replace(' ', '')))
        else:
            t, n = l.split()
            if t == 'Header': t = 'std_msgs/Header'
            fields.append('%s %s' % (t, n))
    return '; '.join(fields)
if __name__ == '__main__':
    import sys
    if len(sys.argv) == 1:
        for l in SPEC.strip().splitlines():
            full, fields = l.split(':', 1)
            emit(OUT, full.strip(), fields)
        for k, (a, b) in SRV.items(): emit_srv(OUT, k, a, b)
    else:
        # gen_msgs.py OUTDIR PKG FILE.msg...  : the repository's own messages, at build time
        for p in sys.argv[3:]:
            emit(sys.argv[1], sys.argv[2] + '/' + os.path.basename(p)[:-4], parse_msg_file(p))
