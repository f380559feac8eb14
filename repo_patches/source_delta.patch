From 9b108ce50fa6b264002504abc69d0df03ef69863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:59 +0000
Subject: [PATCH 01/10] fix: StreamFileWriter reports files that cannot be
 opened or written

---
 cartographer/io/file_writer.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cartographer/io/file_writer.cc b/cartographer/io/file_writer.cc
index 97d4481..6a730df 100644
--- a/cartographer/io/file_writer.cc
+++ b/cartographer/io/file_writer.cc
@@ -25,23 +25,23 @@ StreamFileWriter::StreamFileWriter(const std::string& filename)
 StreamFileWriter::~StreamFileWriter() {}
 
 bool StreamFileWriter::Write(const char* const data, const size_t len) {
-  if (out_.bad()) {
+  if (out_.fail()) {
     return false;
   }
   out_.write(data, len);
-  return !out_.bad();
+  return !out_.fail();
 }
 
 bool StreamFileWriter::Close() {
-  if (out_.bad()) {
+  if (out_.fail()) {
     return false;
   }
   out_.close();
-  return !out_.bad();
+  return !out_.fail();
 }
 
 bool StreamFileWriter::WriteHeader(const char* const data, const size_t len) {
-  if (out_.bad()) {
+  if (out_.fail()) {
     return false;
   }
   out_.flush();
-- 
2.43.0


From 7378768cd2e2a23e3d7f9170fb22763a2cb900f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:59 +0000
Subject: [PATCH 02/10] fix: initialize
 PlyWritingPointsProcessor::has_intensities_

---
 cartographer/io/ply_writing_points_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cartographer/io/ply_writing_points_processor.cc b/cartographer/io/ply_writing_points_processor.cc
index 8b0ecdb..2d23c04 100644
--- a/cartographer/io/ply_writing_points_processor.cc
+++ b/cartographer/io/ply_writing_points_processor.cc
@@ -101,6 +101,7 @@ PlyWritingPointsProcessor::PlyWritingPointsProcessor(
       comments_(comments),
       num_points_(0),
       has_colors_(false),
+      has_intensities_(false),
       file_(std::move(file_writer)) {}
 
 PointsProcessor::FlushResult PlyWritingPointsProcessor::Flush() {
-- 
2.43.0


From d7fc3fe23dab322009ed73c201f7f22769948237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:59 +0000
Subject: [PATCH 03/10] fix: PCD records follow the fields declared in the PCD
 header

---
 cartographer/io/pcd_writing_points_processor.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cartographer/io/pcd_writing_points_processor.cc b/cartographer/io/pcd_writing_points_processor.cc
index abd2c98..9d78c26 100644
--- a/cartographer/io/pcd_writing_points_processor.cc
+++ b/cartographer/io/pcd_writing_points_processor.cc
@@ -118,10 +118,16 @@ void PcdWritingPointsProcessor::Process(std::unique_ptr<PointsBatch> batch) {
     has_colors_ = !batch->colors.empty();
     WriteBinaryPcdHeader(has_colors_, 0, file_writer_.get());
   }
+  if (has_colors_) {
+    CHECK_EQ(batch->points.size(), batch->colors.size())
+        << "First PointsBatch had colors, but encountered one without. "
+           "frame_id: "
+        << batch->frame_id;
+  }
   for (size_t i = 0; i < batch->points.size(); ++i) {
     WriteBinaryPcdPointCoordinate(batch->points[i].position,
                                   file_writer_.get());
-    if (!batch->colors.empty()) {
+    if (has_colors_) {
       WriteBinaryPcdPointColor(ToUint8Color(batch->colors[i]),
                                file_writer_.get());
     }
-- 
2.43.0


From 50065ae7a805be500cec1004ed465c0e33cdf670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:59 +0000
Subject: [PATCH 04/10] fix: do not ignore failed writes of PCD headers and
 grids

---
 cartographer/io/hybrid_grid_points_processor.cc      | 2 +-
 cartographer/io/pcd_writing_points_processor.cc      | 2 +-
 cartographer/io/probability_grid_points_processor.cc | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cartographer/io/hybrid_grid_points_processor.cc b/cartographer/io/hybrid_grid_points_processor.cc
index c81c1d5..8d7277c 100644
--- a/cartographer/io/hybrid_grid_points_processor.cc
+++ b/cartographer/io/hybrid_grid_points_processor.cc
@@ -49,7 +49,7 @@ PointsProcessor::FlushResult HybridGridPointsProcessor::Flush() {
   const mapping::proto::HybridGrid hybrid_grid_proto = hybrid_grid_.ToProto();
   std::string serialized;
   hybrid_grid_proto.SerializeToString(&serialized);
-  file_writer_->Write(serialized.data(), serialized.size());
+  CHECK(file_writer_->Write(serialized.data(), serialized.size()));
   CHECK(file_writer_->Close());
 
   switch (next_->Flush()) {
diff --git a/cartographer/io/pcd_writing_points_processor.cc b/cartographer/io/pcd_writing_points_processor.cc
index 9d78c26..897411c 100644
--- a/cartographer/io/pcd_writing_points_processor.cc
+++ b/cartographer/io/pcd_writing_points_processor.cc
@@ -53,7 +53,7 @@ void WriteBinaryPcdHeader(const bool has_color, const int64 num_points,
          << "\n"
          << "DATA binary\n";
   const std::string out = stream.str();
-  file_writer->WriteHeader(out.data(), out.size());
+  CHECK(file_writer->WriteHeader(out.data(), out.size()));
 }
 
 void WriteBinaryPcdPointCoordinate(const Eigen::Vector3f& point,
diff --git a/cartographer/io/probability_grid_points_processor.cc b/cartographer/io/probability_grid_points_processor.cc
index 907b995..1159ed5 100644
--- a/cartographer/io/probability_grid_points_processor.cc
+++ b/cartographer/io/probability_grid_points_processor.cc
@@ -150,8 +150,8 @@ PointsProcessor::FlushResult ProbabilityGridPointsProcessor::Flush() {
     const auto probability_grid_proto = probability_grid_.ToProto();
     std::string probability_grid_serialized;
     probability_grid_proto.SerializeToString(&probability_grid_serialized);
-    file_writer_->Write(probability_grid_serialized.data(),
-                        probability_grid_serialized.size());
+    CHECK(file_writer_->Write(probability_grid_serialized.data(),
+                              probability_grid_serialized.size()));
     CHECK(file_writer_->Close());
   } else {
     LOG(FATAL) << "Output Type " << FileExtensionFromOutputType(output_type_)
-- 
2.43.0


From a6d0d19e020472b77d30a9edd294e239a7a51e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:59 +0000
Subject: [PATCH 05/10] fix: pbstream info skips unknown messages instead of
 using end()

---
 cartographer/io/internal/pbstream_info.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cartographer/io/internal/pbstream_info.cc b/cartographer/io/internal/pbstream_info.cc
index 194d9d1..213a4c1 100644
--- a/cartographer/io/internal/pbstream_info.cc
+++ b/cartographer/io/internal/pbstream_info.cc
@@ -80,6 +80,7 @@ void Run(const std::string& pbstream_filename, bool all_debug_strings) {
     if (it == data_case_to_name.end()) {
       LOG(WARNING) << "Skipping unknown message type in stream: "
                    << proto.GetTypeName();
+      continue;
     }
     const std::string& data_name = it->second;
     ++data_counts[data_name];
-- 
2.43.0


From 1396c0bb3d276fede9ea7a8b3fc01203b37a11e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:10 +0000
Subject: [PATCH 06/10] fix: AddSubmapFromProto reads the trajectory state
 under the mutex

---
 cartographer/mapping/internal/2d/pose_graph_2d.cc | 15 +++++++--------
 cartographer/mapping/internal/3d/pose_graph_3d.cc | 15 +++++++--------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index 060277e..29f7ccd 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -709,14 +709,13 @@ void PoseGraph2D::AddSubmapFromProto(
     // Immediately show the submap at the 'global_submap_pose'.
     data_.global_submap_poses_2d.Insert(
         submap_id, optimization::SubmapSpec2D{global_submap_pose_2d});
-  }
-
-  // TODO(MichaelGrupp): MapBuilder does freezing before deserializing submaps,
-  // so this should be fine.
-  if (IsTrajectoryFrozen(submap_id.trajectory_id)) {
-    kFrozenSubmapsMetric->Increment();
-  } else {
-    kActiveSubmapsMetric->Increment();
+    // TODO(MichaelGrupp): MapBuilder does freezing before deserializing submaps,
+    // so this should be fine.
+    if (IsTrajectoryFrozen(submap_id.trajectory_id)) {
+      kFrozenSubmapsMetric->Increment();
+    } else {
+      kActiveSubmapsMetric->Increment();
+    }
   }
 
   AddWorkItem(
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index 8a91e59..db8cd75 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -693,14 +693,13 @@ void PoseGraph3D::AddSubmapFromProto(
     // Immediately show the submap at the 'global_submap_pose'.
     data_.global_submap_poses_3d.Insert(
         submap_id, optimization::SubmapSpec3D{global_submap_pose});
-  }
-
-  // TODO(MichaelGrupp): MapBuilder does freezing before deserializing submaps,
-  // so this should be fine.
-  if (IsTrajectoryFrozen(submap_id.trajectory_id)) {
-    kFrozenSubmapsMetric->Increment();
-  } else {
-    kActiveSubmapsMetric->Increment();
+    // TODO(MichaelGrupp): MapBuilder does freezing before deserializing submaps,
+    // so this should be fine.
+    if (IsTrajectoryFrozen(submap_id.trajectory_id)) {
+      kFrozenSubmapsMetric->Increment();
+    } else {
+      kActiveSubmapsMetric->Increment();
+    }
   }
 
   AddWorkItem([this, submap_id, global_submap_pose]() LOCKS_EXCLUDED(mutex_) {
-- 
2.43.0


From 914260bd873d96521a7f064809ed2f5ec446080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:22 +0000
Subject: [PATCH 07/10] fix: list every trajectory that is not deleted in the
 serialized pose graph

A trajectory without submaps or nodes (for example one that only received IMU
data so far) was missing in the serialized pose graph, while its builder options
and sensor data were written. Loading then paired the options of the following
trajectories wrongly and failed to remap the sensor data.
---
 cartographer/mapping/pose_graph.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cartographer/mapping/pose_graph.cc b/cartographer/mapping/pose_graph.cc
index 097e8db..cbbe723 100644
--- a/cartographer/mapping/pose_graph.cc
+++ b/cartographer/mapping/pose_graph.cc
@@ -146,6 +146,15 @@ proto::PoseGraph PoseGraph::ToProto(bool include_unfinished_submaps) const {
     return trajectory_protos.at(trajectory_id);
   };
 
+  // Every trajectory which was not deleted is listed, in the order of its ID, so
+  // that the builder options serialized for these trajectories line up and
+  // sensor data of trajectories without any submap or node can be remapped.
+  for (const auto& id_state : GetTrajectoryStates()) {
+    if (id_state.second != TrajectoryState::DELETED) {
+      trajectory(id_state.first);
+    }
+  }
+
   std::set<mapping::SubmapId> unfinished_submaps;
   for (const auto& submap_id_data : GetAllSubmapData()) {
     proto::Trajectory* trajectory_proto =
-- 
2.43.0


From 7c678e70e6fd943dca995f4761c4d496ec041a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:56 +0000
Subject: [PATCH 08/10] fix: do not wrap the covered cell counts of overlapping
 submaps

A submap covering 65536 cells or more was counted modulo 2^16 and could be
trimmed although it covers far more than the configured minimum area; a
minimum of 65536 cells or more was truncated the same way.
---
 .../mapping/internal/2d/overlapping_submaps_trimmer_2d.cc     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
index a62b0cd..d01fed1 100644
--- a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
+++ b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
@@ -145,8 +145,8 @@ std::map<SubmapId, common::Time> ComputeSubmapFreshness(
 std::vector<SubmapId> FindSubmapIdsToTrim(
     const SubmapCoverageGrid2D& coverage_grid,
     const std::set<SubmapId>& all_submap_ids, uint16 fresh_submaps_count,
-    uint16 min_covered_cells_count) {
-  std::map<SubmapId, uint16> submap_to_covered_cells_count;
+    int64 min_covered_cells_count) {
+  std::map<SubmapId, int64> submap_to_covered_cells_count;
   for (const auto& cell : coverage_grid.cells()) {
     std::vector<std::pair<SubmapId, common::Time>> submaps_per_cell(
         cell.second);
-- 
2.43.0


From 539550bdbd4b3c53150468576843c5369c607fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:27 +0000
Subject: [PATCH 09/10] fix: overlapping submaps trimmer tolerates submaps
 deleted since its last run

With fewer submaps than at the last run the unsigned difference wrapped
around, so that the trimmer ran without new submaps, and dereferenced the
end iterator when no submap was left.
---
 .../mapping/internal/2d/overlapping_submaps_trimmer_2d.cc      | 3 +++
 .../mapping/internal/2d/overlapping_submaps_trimmer_2d.h       | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
index d01fed1..884a1cd 100644
--- a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
+++ b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
@@ -185,6 +185,9 @@ std::vector<SubmapId> FindSubmapIdsToTrim(
 
 void OverlappingSubmapsTrimmer2D::Trim(Trimmable* pose_graph) {
   const auto submap_data = pose_graph->GetOptimizedSubmapData();
+  // Submaps might have been deleted since the last call.
+  current_submap_count_ =
+      std::min<size_t>(current_submap_count_, submap_data.size());
   if (submap_data.size() - current_submap_count_ <= min_added_submaps_count_) {
     return;
   }
diff --git a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.h b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.h
index bd74691..df0c12b 100644
--- a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.h
+++ b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.h
@@ -46,7 +46,7 @@ class OverlappingSubmapsTrimmer2D : public PoseGraphTrimmer {
   // Number of added submaps before the trimmer is invoked.
   const uint16 min_added_submaps_count_;
   // Current finished submap count.
-  uint16 current_submap_count_ = 0;
+  size_t current_submap_count_ = 0;
 
   bool finished_ = false;
 };
-- 
2.43.0


From 12724a92675c89f99891d9ea60fe67b1eeaf10bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:54 +0000
Subject: [PATCH 10/10] fix: PoseExtrapolator returned a stale cached pose
 after AddPose at the same time

---
 cartographer/mapping/pose_extrapolator.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cartographer/mapping/pose_extrapolator.cc b/cartographer/mapping/pose_extrapolator.cc
index 24e3800..93aa8c8 100644
--- a/cartographer/mapping/pose_extrapolator.cc
+++ b/cartographer/mapping/pose_extrapolator.cc
@@ -86,6 +86,8 @@ void PoseExtrapolator::AddPose(const common::Time time,
   TrimOdometryData();
   odometry_imu_tracker_ = absl::make_unique<ImuTracker>(*imu_tracker_);
   extrapolation_imu_tracker_ = absl::make_unique<ImuTracker>(*imu_tracker_);
+  // A pose extrapolated to 'time' earlier is superseded by 'pose'.
+  cached_extrapolated_pose_ = TimedPose{time, pose};
 }
 
 void PoseExtrapolator::AddImuData(const sensor::ImuData& imu_data) {
-- 
2.43.0

