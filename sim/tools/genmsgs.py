#!/usr/bin/env python3
"""Generates C++ message/service headers for the simulator.

usage: genmsgs.py OUTDIR REPO
Standard ROS messages come from the table below, ndt_2d's own from REPO/msg and REPO/srv."""
import os, re, sys

STD = {
"builtin_interfaces/Time": "int32 sec\nuint32 nanosec",
"builtin_interfaces/Duration": "int32 sec\nuint32 nanosec",
"std_msgs/Header": "builtin_interfaces/Time stamp\nstring frame_id",
"std_msgs/ColorRGBA": "float32 r\nfloat32 g\nfloat32 b\nfloat32 a",
"std_msgs/String": "string data",
"std_msgs/Bool": "bool data",
"std_msgs/Empty": "",
"std_msgs/Float64": "float64 data",
"std_msgs/Int32": "int32 data",
"geometry_msgs/Point": "float64 x\nfloat64 y\nfloat64 z",
"geometry_msgs/Point32": "float32 x\nfloat32 y\nfloat32 z",
"geometry_msgs/PointStamped": "std_msgs/Header header\nPoint point",
"geometry_msgs/Vector3": "float64 x\nfloat64 y\nfloat64 z",
"geometry_msgs/Vector3Stamped": "std_msgs/Header header\nVector3 vector",
"geometry_msgs/Quaternion": "float64 x 0\nfloat64 y 0\nfloat64 z 0\nfloat64 w 1",
"geometry_msgs/QuaternionStamped": "std_msgs/Header header\nQuaternion quaternion",
"geometry_msgs/Pose": "Point position\nQuaternion orientation",
"geometry_msgs/Pose2D": "float64 x\nfloat64 y\nfloat64 theta",
"geometry_msgs/PoseStamped": "std_msgs/Header header\nPose pose",
"geometry_msgs/PoseArray": "std_msgs/Header header\nPose[] poses",
"geometry_msgs/PoseWithCovariance": "Pose pose\nfloat64[36] covariance",
"geometry_msgs/PoseWithCovarianceStamped": "std_msgs/Header header\nPoseWithCovariance pose",
"geometry_msgs/Transform": "Vector3 translation\nQuaternion rotation",
"geometry_msgs/TransformStamped": "std_msgs/Header header\nstring child_frame_id\nTransform transform",
"geometry_msgs/Twist": "Vector3 linear\nVector3 angular",
"geometry_msgs/TwistWithCovariance": "Twist twist\nfloat64[36] covariance",
"nav_msgs/MapMetaData": "builtin_interfaces/Time map_load_time\nfloat32 resolution\nuint32 width\nuint32 height\ngeometry_msgs/Pose origin",
"nav_msgs/OccupancyGrid": "std_msgs/Header header\nMapMetaData info\nint8[] data",
"nav_msgs/Odometry": "std_msgs/Header header\nstring child_frame_id\ngeometry_msgs/PoseWithCovariance pose\ngeometry_msgs/TwistWithCovariance twist",
"nav_msgs/Path": "std_msgs/Header header\ngeometry_msgs/PoseStamped[] poses",
"sensor_msgs/LaserScan": "std_msgs/Header header\nfloat32 angle_min\nfloat32 angle_max\nfloat32 angle_increment\nfloat32 time_increment\nfloat32 scan_time\nfloat32 range_min\nfloat32 range_max\nfloat32[] ranges\nfloat32[] intensities",
"visualization_msgs/Marker": """int32 ARROW=0
int32 CUBE=1
int32 SPHERE=2
int32 CYLINDER=3
int32 LINE_STRIP=4
int32 LINE_LIST=5
int32 CUBE_LIST=6
int32 SPHERE_LIST=7
int32 POINTS=8
int32 TEXT_VIEW_FACING=9
int32 MESH_RESOURCE=10
int32 TRIANGLE_LIST=11
int32 ADD=0
int32 MODIFY=0
int32 DELETE=2
int32 DELETEALL=3
std_msgs/Header header
string ns
int32 id
int32 type
int32 action
geometry_msgs/Pose pose
geometry_msgs/Vector3 scale
std_msgs/ColorRGBA color
builtin_interfaces/Duration lifetime
bool frame_locked
geometry_msgs/Point[] points
std_msgs/ColorRGBA[] colors
string texture_resource
string text
string mesh_resource
bool mesh_use_embedded_materials""",
"visualization_msgs/MarkerArray": "Marker[] markers",
"tf2_msgs/TFMessage": "geometry_msgs/TransformStamped[] transforms",
}
SRV = {"std_srvs/Empty": "---", "std_srvs/Trigger": "---\nbool success\nstring message",
       "std_srvs/SetBool": "bool data\n---\nbool success\nstring message"}
PRIM = {"bool": "bool", "byte": "uint8_t", "char": "uint8_t", "int8": "int8_t", "uint8": "uint8_t",
        "int16": "int16_t", "uint16": "uint16_t", "int32": "int32_t", "uint32": "uint32_t",
        "int64": "int64_t", "uint64": "uint64_t", "float32": "float", "float64": "double",
        "string": "std::string"}

def snake(n):
    n = re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", n)
    n = re.sub(r"([A-Z]+)([A-Z][a-z])", r"\1_\2", n)
    return n.lower()

def parse(text, pkg, known):
    fields, consts = [], []
    for line in text.splitlines():
        line = line.split("#")[0].strip()
        if not line: continue
        m = re.match(r"^(\S+)\s+(\w+)\s*=\s*(.+)$", line)
        if m:
            consts.append((m[1], m[2], m[3].strip())); continue
        m = re.match(r"^(\S+)\s+(\w+)(?:\s+(.+))?$", line)
        t, name, dflt = m[1], m[2], m[3]
        t = re.sub(r"<=\d+", "", t)
        arr = None
        a = re.match(r"^(.*)\[(\d*)\]$", t)
        if a: t, arr = a[1], a[2]
        if t in PRIM: base, dep = PRIM[t], None
        else:
            if t == "Header": t = "std_msgs/Header"
            full = t if "/" in t else pkg + "/" + t
            full = full.replace("/msg/", "/")
            p, n = full.split("/")
            base, dep = f"{p}::msg::{n}", full
        fields.append((base, dep, arr, name, dflt))
    return fields, consts

def struct(name, fields, consts):
    o = [f"struct {name}\n{{"]
    o.append(f"  typedef std::shared_ptr<{name}> SharedPtr; typedef std::shared_ptr<{name} const> ConstSharedPtr;")
    o.append(f"  typedef std::unique_ptr<{name}> UniquePtr; typedef std::unique_ptr<{name} const> ConstUniquePtr; using ConstPtr = ConstSharedPtr; using Ptr = SharedPtr;")
    for t, n, v in consts:
        ct = PRIM.get(t, t)
        if ct == "std::string": o.append(f"  inline static const std::string {n} = {v};")
        else: o.append(f"  static constexpr {ct} {n} = static_cast<{ct}>({v});")
    for base, dep, arr, n, d in fields:
        if arr is None:
            init = ""
            if dep is None and base != "std::string":
                init = "{%s}" % (d if d else ("false" if base == "bool" else "0"))
            o.append(f"  {base} {n}{init};")
        elif arr == "": o.append(f"  std::vector<{base}> {n};")
        else: o.append(f"  std::array<{base}, {arr}> {n}{{}};")
    eq = " && ".join(f"{n} == o.{n}" for _, _, _, n, _ in fields) or "true"
    o.append(f"  bool operator==(const {name}& o) const {{ (void)o; return {eq}; }}")
    o.append(f"  bool operator!=(const {name}& o) const {{ return !(*this == o); }}")
    o.append("  template<class Ar> void sim_visit(Ar& ar) { (void)ar; %s }" % " ".join(f"ar({n});" for _, _, _, n, _ in fields))
    o.append("};")
    return "\n".join(o)

HEAD = "#include <array>\n#include <cstdint>\n#include <memory>\n#include <string>\n#include <vector>\n"

def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text: return
    open(path, "w").write(text)

def main(out, repo):
    msgs = dict(STD); srvs = dict(SRV)
    for d, tbl, ext in (("msg", msgs, ".msg"), ("srv", srvs, ".srv")):
        p = os.path.join(repo, d)
        for f in sorted(os.listdir(p)) if os.path.isdir(p) else []:
            if f.endswith(ext): tbl["ndt_2d/" + f[:-4]] = open(os.path.join(p, f)).read()
    for full, text in msgs.items():
        pkg, name = full.split("/")
        fields, consts = parse(text, pkg, msgs)
        deps = sorted({d for _, d, _, _, _ in fields if d})
        inc = "".join(f"#include <{d.split('/')[0]}/msg/{snake(d.split('/')[1])}.hpp>\n" for d in deps)
        body = struct(name, fields, consts)
        g = f"SIM_{pkg}_{name}_HPP".upper()
        put(f"{out}/{pkg}/msg/{snake(name)}.hpp",
            f"#ifndef {g}\n#define {g}\n{HEAD}{inc}namespace {pkg} {{ namespace msg {{\n{body}\n}} }}\n#endif\n")
    for full, text in srvs.items():
        pkg, name = full.split("/")
        req, res = (text.split("---") + [""])[:2]
        fr, cr = parse(req, pkg, msgs); fs, cs = parse(res, pkg, msgs)
        deps = sorted({d for f in (fr, fs) for _, d, _, _, _ in f if d})
        inc = "".join(f"#include <{d.split('/')[0]}/msg/{snake(d.split('/')[1])}.hpp>\n" for d in deps)
        g = f"SIM_{pkg}_SRV_{name}_HPP".upper()
        body = struct(name + "_Request", fr, cr) + "\n" + struct(name + "_Response", fs, cs)
        body += f"\nstruct {name} {{ using Request = {name}_Request; using Response = {name}_Response; }};"
        put(f"{out}/{pkg}/srv/{snake(name)}.hpp",
            f"#ifndef {g}\n#define {g}\n{HEAD}{inc}namespace {pkg} {{ namespace srv {{\n{body}\n}} }}\n#endif\n")

main(sys.argv[1], sys.argv[2])
