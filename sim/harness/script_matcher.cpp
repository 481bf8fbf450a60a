// A scan-matcher plugin with scripted answers. It is compiled exactly like the code under test (in the fine
// build its memory accesses are preemption points and race-checked), and like any matcher it keeps the
// content it is given and reads scans only inside its own methods.
#include <Eigen/Core>
#include <ndt_2d/scan_matcher.hpp>
#include <pluginlib/class_list_macros.hpp>
#include <string>
#include <vector>

namespace simx
{
struct ScriptAnswer { double dx, dy, dth, score; double cov[9]; };
ScriptAnswer script_answer(const std::string & instance, size_t content, size_t npoints);   // harness
double script_score(const std::string & instance, size_t content, size_t npoints, double x, double y, double th);

class ScriptMatcher : public ndt_2d::ScanMatcher
{
public:
  void initialize(const std::string & name, rclcpp::Node * node, double range_max) override
  {
    name_ = name; range_max_ = range_max;
    node->declare_parameter<double>(name + ".script_gain", 1.0);
  }
  void addScans(const std::vector<ndt_2d::ScanPtr>::const_iterator & begin, const std::vector<ndt_2d::ScanPtr>::const_iterator & end) override
  {
    content_.clear();
    for (auto s = begin; s != end; ++s)
    {
      ndt_2d::Pose2d p = (*s)->getPose();
      std::vector<ndt_2d::Point> pts = (*s)->getPoints();
      content_.push_back(p.x + p.y + p.theta + static_cast<double>(pts.size()));
    }
  }
  double matchScan(const ndt_2d::ScanPtr & scan, ndt_2d::Pose2d & pose, Eigen::Matrix3d & covariance) const override
  {
    ndt_2d::Pose2d p = scan->getPose();
    size_t n = scan->getPoints().size();
    ScriptAnswer a = script_answer(name_, content_.size(), n);
    pose.x = a.dx; pose.y = a.dy; pose.theta = a.dth;
    for (int i = 0; i < 9; ++i) covariance(i / 3, i % 3) = a.cov[i];
    double sum = 0;
    for (double c : content_) sum += c;
    return (sum == 123.456 && p.x == 1e99) ? 0.0 : a.score;
  }
  double scoreScan(const ndt_2d::ScanPtr & scan) const override { return scorePoints(scan->getPoints(), scan->getPose()); }
  double scorePoints(const std::vector<ndt_2d::Point> & points, const ndt_2d::Pose2d & pose) const override
  {
    return script_score(name_, content_.size(), points.size(), pose.x, pose.y, pose.theta);
  }
  void reset() override { content_.clear(); }

private:
  std::string name_;
  double range_max_ = 0;
  std::vector<double> content_;
};
}  // namespace simx
PLUGINLIB_EXPORT_CLASS(simx::ScriptMatcher, ndt_2d::ScanMatcher)
