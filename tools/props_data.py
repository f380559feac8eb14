C = 'cartographer/'
prop('P01', 'Background tasks run once, after all their dependencies, and always complete',
     'A scheduled task executes its work exactly once, only after every dependency added before scheduling has completed, '
     'and without holding any internal lock. When it has run it becomes completed and every task depending on it is '
     'told exactly once, also when the dependency was added while it was running or after it had completed. '
     'Misuse of the order (changing a task after it was scheduled, executing it early or twice) is refused.',
     ['schedules', 'histories'], 'all interleavings of adding dependencies, scheduling and executing tasks, all dependency graphs',
     'The unit tests run a handful of graphs on a mock or one pool; the races between registering a dependent and '
     'completing the dependency are not reachable on demand.',
     [C + 'common/task.cc', C + 'common/task.h'],
     [('task state machine', C + 'common/task.cc: Task::AddDependency, SetThreadPool, Execute, OnDependenyCompleted'),
      ('pool forwarding', C + 'common/thread_pool.cc: ThreadPoolInterface::Execute, SetThreadPool')])
prop('P02', 'Thread pool and blocking queue lose no work, never miss a wake-up, drain at exit',
     'Every task handed to the thread pool is queued as soon as it is ready and executed by some worker outside the '
     'pool lock; workers leave only when the pool is shutting down and the queue is empty, and destroying the pool waits '
     'for all of them. The blocking queue is first-in-first-out, never exceeds its capacity, blocks exactly while it is '
     'full (push) or empty (pop), and a timed-out or empty operation reports so without changing the queue.',
     ['schedules', 'histories'], 'all interleavings of producers, workers and shutdown; all queue capacities and fill levels',
     'The tests exercise single pushes and pops and small pools; shutdown with queued work and full queues under contention '
     'depend on the schedule.',
     [C + 'common/thread_pool.cc', C + 'common/internal/blocking_queue.h'],
     [('worker loop', C + 'common/thread_pool.cc: ThreadPool::DoWork'),
      ('ready hand-over', C + 'common/thread_pool.cc: ThreadPool::Schedule, NotifyDependenciesCompleted'),
      ('shutdown', C + 'common/thread_pool.cc: ThreadPool::~ThreadPool'),
      ('wait predicates', C + 'common/internal/blocking_queue.h: BlockingQueue')])
prop('P03', 'Points pipeline: every surviving batch and every flush reaches the next stage',
     'Every points processor hands each batch that still has points to the next stage exactly once, in order and after its own '
     'work on it, drops a batch only when no point of it is left to forward, and hands every flush on, answering '
     'with the answer of the stage behind it (a file-writing stage answers "finished" unless the rest wants a restart). '
     'The pipeline is built in the configured order, each stage from its own configuration and registered under its own name, '
     'and ends in a sink that discards.',
     ['inputs', 'histories'], 'all configurations of stages, all sequences of batches and flushes, all restarts of the stream',
     'Tests run a few single stages on small batches; lost or doubled batches show only in particular chains and on restarts.',
     [C + 'io/points_processor_pipeline_builder.cc', C + 'io/fixed_ratio_sampling_points_processor.cc', C + 'io/counting_points_processor.cc',
      C + 'io/coloring_points_processor.cc', C + 'io/outlier_removing_points_processor.cc', C + 'io/pcd_writing_points_processor.cc',
      C + 'io/ply_writing_points_processor.cc', C + 'io/xyz_writing_points_processor.cc', C + 'io/null_points_processor.h'],
     [('chain construction', C + 'io/points_processor_pipeline_builder.cc: PointsProcessorPipelineBuilder::CreatePipeline'),
      ('stage behaviour', C + 'io/*_points_processor.cc: Process and Flush of every subclass of PointsProcessor')])
prop('P04', 'Point filters remove exactly the named points and keep attributes aligned',
     'The range, vertical-range, frame-id, fixed-ratio-sampling and outlier-removing stages remove exactly the points their configured limits name '
     '(range limits inclusive to keep, compared on squared distances from the batch origin) and keep all the others; intensity-to-color and coloring give every point '
     'exactly one color. Whatever is removed, points, intensities and colors keep the same order and stay aligned with each other. '
     'Each limit is read from its own configuration key.',
     ['inputs'], 'all batches of points with any subset of attributes, all limits',
     'Tests use a handful of points; alignment after removal is visible only for batches carrying all attributes.',
     [C + 'io/min_max_range_filtering_points_processor.cc', C + 'io/vertical_range_filtering_points_processor.cc', C + 'io/frame_id_filtering_points_processor.cc',
      C + 'io/fixed_ratio_sampling_points_processor.cc', C + 'io/outlier_removing_points_processor.cc', C + 'io/intensity_to_color_points_processor.cc',
      C + 'io/coloring_points_processor.cc', C + 'io/points_batch.cc'],
     [('removal', C + 'io/points_batch.cc: RemovePoints'), ('filters', C + 'io/*_filtering_points_processor.cc: Process'),
      ('outlier phases', C + 'io/outlier_removing_points_processor.cc: ProcessInPhaseOne/Two/Three')])
prop('P05', 'Point files: the header describes exactly the bytes that follow',
     'In every PLY, PCD and XYZ file written, the header is written first, the final header states the number of points really written and '
     'fits exactly over the placeholder, and each point is one record with exactly the declared '
     'properties (coordinates, then the colors and the intensity when declared), in the declared order, type and size, also over several batches; '
     'a later batch whose attributes differ from the declared ones is refused.',
     ['inputs', 'histories'], 'all sequences of batches, with or without colors and intensities, any number of points',
     'No test covers PLY/PCD writing over several batches; a mismatch yields files other tools misread.',
     [C + 'io/ply_writing_points_processor.cc', C + 'io/pcd_writing_points_processor.cc', C + 'io/xyz_writing_points_processor.cc'],
     [('PLY', C + 'io/ply_writing_points_processor.cc: WriteBinaryPlyHeader, Process, Flush'),
      ('PCD', C + 'io/pcd_writing_points_processor.cc: WriteBinaryPcdHeader, WriteBinaryPcdPointCoordinate, WriteBinaryPcdPointColor, Process, Flush'),
      ('XYZ', C + 'io/xyz_writing_points_processor.cc: WriteXyzPoint')])
prop('P06', 'Failed writes are reported: no output failure is ignored',
     'A file writer reports success exactly if the file could be opened and every byte written so far (header and data) reached the stream; '
     'data are appended after the header and a header can be rewritten only with its original length. No caller in the io library drops the result of writing, '
     'rewriting the header or closing, nor of opening or reading an input stream: a failure either ends the program or is returned.',
     ['crash_points', 'inputs'], 'all output operations and any of them failing',
     'Tests write to healthy disks; full disks and unwritable paths are not exercised.',
     [C + 'io/file_writer.cc', C + 'io/image.cc', C + 'io/proto_stream.cc', C + 'io/hybrid_grid_points_processor.cc', C + 'io/probability_grid_points_processor.cc'],
     [('writer', C + 'io/file_writer.cc: StreamFileWriter'), ('png output', C + 'io/image.cc: CairoWriteCallback, Image::WritePng'),
      ('callers', C + 'io/*.cc: every call of FileWriter::Write/WriteHeader/Close, ProtoStreamWriter::Close')])
prop('P07', 'Proto streams return what was written, message for message, and report damage',
     'A proto stream file starts with the magic number and then holds each message as its compressed size in little-endian order and its compressed bytes, '
     'so that reading returns the same messages in the same order; a wrong magic number, an unreadable or truncated file, an unparsable message or prologue is reported, '
     'never returned as data. The deserializer takes the first three messages as header, pose graph and builder options and then returns every further message once. '
     'The in-memory stream behaves as a queue of the messages.',
     ['inputs', 'histories'], 'all sequences and sizes of messages, all truncation points',
     'Tests write a few messages to a healthy file; truncation at each byte and all sizes cannot be sampled.',
     [C + 'io/proto_stream.cc', C + 'io/proto_stream_deserializer.cc', C + 'io/in_memory_proto_stream.cc', C + 'common/port.h'],
     [('framing', C + 'io/proto_stream.cc: WriteSizeAsLittleEndian, ReadSizeAsLittleEndian, ProtoStreamWriter::Write, ProtoStreamReader::ReadProto'),
      ('prologue', C + 'io/proto_stream_deserializer.cc: ProtoStreamDeserializer'),
      ('compression', C + 'common/port.h: FastGzipString, FastGunzipString')])
prop('P08', 'Sensor data is handed out in time order, complete, to its own callback',
     'The ordered queue and both collators hand every added item exactly once to the callback of its own trajectory and sensor, always the earliest waiting item of all queues '
     'next and only when every unfinished queue has data, items before the common start time of its trajectory being dropped except the last one before it; '
     'refuse a dispatch that would go back in time; finish every queue of a finished trajectory and on flush; and report the queue that blocks. '
     'Data for an unknown queue is dropped with a warning; adding a queue or trajectory twice is refused.',
     ['histories', 'schedules'], 'all sequences of AddTrajectory, Add, MarkQueueAsFinished, Flush over any number of sensors',
     'Tests use three queues and a fixed order; dispatch order depends on the whole history.',
     [C + 'sensor/internal/ordered_multi_queue.cc', C + 'sensor/internal/collator.cc', C + 'sensor/internal/trajectory_collator.cc'],
     [('dispatch', C + 'sensor/internal/ordered_multi_queue.cc: OrderedMultiQueue::Dispatch, GetCommonStartTime'),
      ('collators', C + 'sensor/internal/collator.cc and trajectory_collator.cc: AddTrajectory, AddSensorData, FinishTrajectory, Flush')])
prop('P09', 'Rigid transforms compose, invert, act and convert as rigid motions do',
     'For every 2D and 3D transform, single or double precision: the product of two transforms is the one that applies the right and then the left one, the inverse undoes it, '
     'identity, pure translation and pure rotation are what they say, applying a transform rotates and then translates, casting keeps both parts, yaw, rotation angle, angle-axis and '
     'roll-pitch-yaw conversions are consistent, projecting to 2D keeps x, y and yaw, embedding has no height, roll or pitch, and a configured transform with a malformed '
     'translation or rotation is refused.',
     ['inputs'], 'all transforms, vectors and angles',
     'Tests compare a few poses within a tolerance; an error in one component or branch shows only for particular rotations.',
     [C + 'transform/rigid_transform.h', C + 'transform/rigid_transform.cc', C + 'transform/transform.h'],
     [('group operations', C + 'transform/rigid_transform.h: Rigid2, Rigid3, operator*'), ('angles', C + 'transform/transform.h: GetAngle, GetYaw, Project2D, Embed3D, AngleAxisVectorToRotationQuaternion'),
      ('configuration', C + 'transform/rigid_transform.cc: FromDictionary')])
prop('P10', 'Histories kept by time stay ordered, interpolate between neighbours, trim safely',
     'The transform buffer accepts poses in time order only, covers exactly the span from its oldest to its newest pose, refuses lookups outside it, returns the stored pose at a stored time and '
     'otherwise interpolates linearly and spherically between the two neighbours, and drops its oldest poses beyond its limit. Data kept by time per trajectory is '
     'accepted in strictly increasing order, and trimming a node removes exactly the data strictly between its neighbouring nodes but the first and last of the gap, and a trajectory without data.',
     ['inputs', 'histories'], 'all sequences of pushes, appends, lookups and trims',
     'Tests look up a handful of times in short histories; boundary times and trim positions are not all sampled.',
     [C + 'transform/transform_interpolation_buffer.cc', C + 'transform/timestamped_transform.cc', C + 'sensor/map_by_time.h', C + 'common/time.cc'],
     [('buffer', C + 'transform/transform_interpolation_buffer.cc: Push, Has, Lookup'), ('interpolation', C + 'transform/timestamped_transform.cc: Interpolate'),
      ('data by time', C + 'sensor/map_by_time.h: MapByTime::Append, Trim')])
prop('P11', 'Sensor data and poses keep every component through messages and back',
     'Converting poses, vectors, rotations, range points, IMU, odometry, landmark, fixed-frame pose, timed point cloud, range data and compressed clouds to a message and back gives every component '
     'the value of the component of the same meaning, for every element and in order, including the optional and the legacy point fields; '
     'a point cloud message with a number of intensities that is neither zero nor the number of points is refused.',
     ['inputs'], 'all values of all message-backed sensor types, any number of elements',
     'Round-trip tests use a few values and cannot notice swapped equal components or legacy fields of several elements.',
     [C + 'transform/transform.cc', C + 'sensor/imu_data.cc', C + 'sensor/odometry_data.cc', C + 'sensor/landmark_data.cc', C + 'sensor/fixed_frame_pose_data.cc',
      C + 'sensor/timed_point_cloud_data.cc', C + 'sensor/range_data.cc', C + 'sensor/rangefinder_point.h', C + 'sensor/compressed_point_cloud.cc'],
     [('poses', C + 'transform/transform.cc: ToProto, ToRigid2, ToRigid3, ToEigen'), ('sensor data', C + 'sensor/*_data.cc: ToProto, FromProto')])
prop('P12', 'Point clouds keep points with their intensities; filters keep what they promise',
     'For every point cloud: cropping keeps exactly the points within the slab, with their intensities, in order; transforming moves every point and keeps times and intensities; the '
     'range filter keeps exactly the points within range; the voxel filter keeps exactly one of the points of every occupied voxel; the adaptive filter returns a sparse cloud as it is, otherwise '
     'the cloud thinned at a length that leaves at least the required number of points if its search found one; a cloud with a number of intensities other than zero or the number of points is refused; '
     'compression stores every point once and decompression yields the same points at the compressed precision.',
     ['inputs'], 'all point clouds, with and without intensities, and all filter options',
     'Tests use random small clouds; voxels at boundaries, negative coordinates or intensities of dropped points are rarely sampled.',
     [C + 'sensor/point_cloud.cc', C + 'sensor/range_data.cc', C + 'sensor/internal/voxel_filter.cc', C + 'sensor/compressed_point_cloud.cc'],
     [('clouds', C + 'sensor/point_cloud.h: PointCloud, copy_if; CropPointCloud, TransformPointCloud'), ('voxel filters', C + 'sensor/internal/voxel_filter.cc: VoxelFilter, AdaptivelyVoxelFiltered'),
      ('compression', C + 'sensor/compressed_point_cloud.cc: CompressedPointCloud, ConstIterator')])
prop('P13', 'Configuration yields exactly the configured values and refuses unused keys',
     'A Lua dictionary returns the value of the named key with the requested type and refuses a missing key, a value of another type, and a non-negative integer below zero; a nested dictionary, arrays '
     'of doubles, strings and dictionaries have every element in order; every key that was read is counted and, for a dictionary that was not created without reference counting, '
     'keys never read are refused at destruction; printing gives every entry by key; the Lua stack is balanced after every operation; included files resolve to the first '
     'configuration directory that has the file, once each, and a file that is nowhere is refused.',
     ['inputs', 'histories'], 'all configuration files, all keys and value types, all sequences of reads',
     'Tests read a few small dictionaries; stack imbalance and unused-key detection depend on the sequence of reads.',
     [C + 'common/lua_parameter_dictionary.cc', C + 'common/configuration_file_resolver.cc'],
     [('getters', C + 'common/lua_parameter_dictionary.cc: GetString, GetDouble, GetInt, GetBool, GetNonNegativeInt, GetDictionary, GetArrayValues*'),
      ('reference counts', C + 'common/lua_parameter_dictionary.cc: CheckAllKeysWereUsedExactlyOnceAndReset, destructor'),
      ('files', C + 'common/configuration_file_resolver.cc: GetFullPathOrDie')])
prop('P14', '2D grids map points to cells; cells survive growth, cropping and storage',
     'For every 2D map: the cell of a point and the centre of a cell agree with resolution and maximum, x index from y and vice versa; a cell is read and written at its own place '
     'only; growing keeps every known cell at the same place in the world and ends when the point is inside; the known-cells box covers exactly the known cells; '
     'cropping keeps every known cell at the same place in the world; a cell is updated at most once per scan and the marks are removed when the update finishes; conversion to a message and back keeps every cell, '
     'the limits, the box and the bounds of values; drawing a texture gives every cell of the known box its value and alpha and the pose and resolution of the box.',
     ['inputs', 'histories'], 'all grids, cells, points and sequences of updates and growths, probability and TSDF grids',
     'Tests look at small grids; index mistakes show only for non-square grids, growth in particular directions or cropped boxes.',
     [C + 'mapping/2d/grid_2d.cc', C + 'mapping/2d/probability_grid.cc', C + 'mapping/2d/map_limits.h', C + 'mapping/2d/xy_index.h', C + 'mapping/internal/2d/tsdf_2d.cc'],
     [('cells', C + 'mapping/2d/map_limits.h: GetCellIndex, GetCellCenter, Contains'), ('growth', C + 'mapping/2d/grid_2d.cc: GrowLimits, ComputeCroppedLimits, ToFlatIndex, FinishUpdate'),
      ('grids', C + 'mapping/2d/probability_grid.cc and mapping/internal/2d/tsdf_2d.cc: SetCell, ApplyLookupTable, ComputeCroppedGrid, DrawToSubmapTexture, ToProto')])
prop('P15', 'Cell values encode probabilities, costs, distances and weights consistently',
     'A probability, correspondence cost, distance or weight is clamped to its bounds and mapped linearly to 1..32767, with 0 for unknown; every 16-bit value, with and without the update marker, '
     'maps back to the number at its place in that range; odds and probabilities convert into each other; a table applying odds gives every value, known or not, the value of the '
     'combined odds with the update marker, correspondence costs as complement of probabilities; a conversion table is made once per set of bounds and shared.',
     ['inputs'], 'all probabilities, odds, bounds and all 65536 cell values',
     'Tests check a tolerance on samples; an off-by-one in the table or a missing marker affects a few of 65536 values.',
     [C + 'mapping/probability_values.h', C + 'mapping/probability_values.cc', C + 'mapping/value_conversion_tables.cc', C + 'mapping/internal/2d/tsd_value_converter.h'],
     [('conversions', C + 'mapping/probability_values.h: BoundedFloatToValue, ProbabilityToValue, Odds'), ('tables', C + 'mapping/probability_values.cc: ComputeLookupTableToApplyOdds'),
      ('shared tables', C + 'mapping/value_conversion_tables.cc: GetConversionTable')])
prop('P16', 'A scan updates exactly the cells it observed, hits before misses',
     'Inserting range data grows the grid to the bounding box of origin, returns and misses before anything is updated; then updates the cell of every return with the hit table, and, if free space is '
     'inserted, every cell of the ray from the origin to every return and miss with the miss table, hits first; in 3D every return is a hit and the configured number of voxels before it are misses, '
     'intensities up to the threshold being averaged per voxel; in a TSDF every return within the configured rules updates every cell of its ray by the weighted mean of signed distance and weight; '
     'every update is finished exactly once, after the last cell.',
     ['inputs'], 'all range data, origins, grids and insertion options',
     'Tests insert a handful of points; order of hits and misses, option combinations and unfinished updates are not sampled.',
     [C + 'mapping/2d/probability_grid_range_data_inserter_2d.cc', C + 'mapping/internal/2d/tsdf_range_data_inserter_2d.cc', C + 'mapping/3d/range_data_inserter_3d.cc'],
     [('2D', C + 'mapping/2d/probability_grid_range_data_inserter_2d.cc: Insert, GrowAsNeeded, CastRays'), ('TSDF', C + 'mapping/internal/2d/tsdf_range_data_inserter_2d.cc: Insert, InsertHit, UpdateCell'),
      ('3D', C + 'mapping/3d/range_data_inserter_3d.cc: Insert, InsertMissesIntoGrid, InsertIntensitiesIntoGrid')])
prop('P17', 'Every scan enters every active submap once; finished submaps never change',
     'The first scan and every scan after a submap got its configured number of scans start a new submap at the scan origin; every scan is inserted exactly once into each active submap, which counts it; '
     'the oldest submap is finished (and in 2D cropped) exactly when it holds twice the configured number, and dropped from the active ones only when finished; a finished submap refuses scans and being finished again; '
     'in 3D the scan is moved into the submap frame, inserted in full at low and up to the maximum range at high resolution, and its histogram is added at the right yaw; '
     'a submap and its message have the same pose, count, state, grids and histogram; queries draw every grid with its version, pose and size.',
     ['histories', 'inputs'], 'all sequences of scans, all submap options, 2D and 3D',
     'Tests insert a few scans with one configuration and look at counts only.',
     [C + 'mapping/submaps.h', C + 'mapping/2d/submap_2d.cc', C + 'mapping/3d/submap_3d.cc'],
     [('2D', C + 'mapping/2d/submap_2d.cc: Submap2D, ActiveSubmaps2D'), ('3D', C + 'mapping/3d/submap_3d.cc: Submap3D, ActiveSubmaps3D, AddToTextureProto')])
prop('P18', 'Data by node or submap id: ids are never reused, lookups and iteration are exact',
     'Ids compare and order by trajectory and then index. The container numbers appended data of a trajectory consecutively from the last one, refuses appending where data was inserted by id or the last one was trimmed '
     '(so an id is never given twice), refuses inserting an existing id and trimming a missing one, drops a trajectory with its last element, and finds, counts and iterates exactly the elements '
     'it holds, in the order of their ids, forwards and backwards, per trajectory and in total.',
     ['histories', 'inputs'], 'all sequences of appends, inserts and trims over any trajectories',
     'Tests use small containers; id reuse after particular trim sequences and iteration over gaps depend on the history.',
     [C + 'mapping/id.h'], [('ids', C + 'mapping/id.h: NodeId, SubmapId'), ('container', C + 'mapping/id.h: MapById, ConstIterator, ConstTrajectoryIterator')])
prop('P19', 'A saved state holds every trajectory, submap, node, constraint and measurement',
     'Writing the state emits the header with the current format version, the pose graph and the builder options of every trajectory that is not deleted, in that order and first; then one record per submap (all, or only finished '
     'ones when so asked), node, trajectory, IMU, odometry and fixed-frame measurement and landmark observation, each with its id and every component; the pose graph message lists every trajectory that is not deleted in id order, '
     'every stored submap, node and landmark pose, and every constraint except those of submaps left out; nodes, constraints, tags and sensor ids read back from their messages are what was stored; '
     'saving to a file reports whether closing it succeeded.',
     ['inputs', 'histories'], 'all pose graphs and trajectory states, with and without unfinished submaps',
     'Tests write a small graph; a component dropped from a message, a trajectory without nodes or an unfinished submap shows only after reloading a particular map.',
     [C + 'io/internal/mapping_state_serialization.cc', C + 'mapping/pose_graph.cc', C + 'mapping/trajectory_node.cc', C + 'mapping/trajectory_builder_interface.cc', C + 'mapping/map_builder.cc'],
     [('stream', C + 'io/internal/mapping_state_serialization.cc: WritePbStream'), ('pose graph', C + 'mapping/pose_graph.cc: PoseGraph::ToProto, ToProto, FromProto'),
      ('nodes', C + 'mapping/trajectory_node.cc: ToProto, FromProto'), ('sensor ids', C + 'mapping/trajectory_builder_interface.cc: ToProto, FromProto')])
prop('P20', 'Loading a saved state restores all of it under consistent new trajectory ids',
     'Loading gives every trajectory of the stream the next free id and keeps its builder options; poses, submaps, nodes, trajectory data, sensor data and constraints are handed to the pose graph exactly once, each under the new '
     'id of its trajectory and with its own pose; frozen loading freezes every trajectory first, leaves out sensor data and keeps the node-in-submap relation of every intra-submap constraint, otherwise all constraints are added '
     'after submaps and nodes; landmark poses are restored; a trajectory named twice, a 3D stream without histograms and trailing data are refused. Migrating a version 1 stream keeps all of this and '
     'adds to every 3D submap the histograms of all its nodes turned into its frame.',
     ['inputs', 'histories'], 'all streams, frozen or not, into builders that already hold trajectories',
     'Tests load one map into an empty builder, where old and new ids coincide.',
     [C + 'mapping/map_builder.cc', C + 'io/serialization_format_migration.cc'],
     [('loader', C + 'mapping/map_builder.cc: LoadState, AddTrajectoryForDeserialization'), ('migration', C + 'io/serialization_format_migration.cc: MigrateStreamVersion1ToVersion2, MigrateSubmapFormatVersion1ToVersion2')])

prop('P21', '3D grids: one cell per index, growing and iterating lose nothing',
     'In a hybrid grid every index reads and writes exactly one cell, a cell never set reads as the default value, and it is created on first write access; growing the grid keeps every cell under its index and refuses to pass the '
     'largest size; iteration visits each cell holding a value that differs from the default exactly once, with its own index and value; points map to the cell whose centre is nearest and cell centres back; a cell takes part in at '
     'most one update per scan, and finishing the scan clears every mark; the stored form lists index and value of every set cell and restores them; intensities are averages.',
     ['inputs', 'histories'], 'all indices, positive and negative, all growth and insertion histories',
     'Tests touch a few cells at one size; an off-by-one in index arithmetic or growth shows only for particular indices at particular sizes.',
     [C + 'mapping/3d/hybrid_grid.h'],
     [('levels', C + 'mapping/3d/hybrid_grid.h: FlatGrid, NestedGrid, DynamicGrid'), ('iteration', C + 'mapping/3d/hybrid_grid.h: Iterator'), ('values', C + 'mapping/3d/hybrid_grid.h: HybridGrid, IntensityHybridGrid')])

prop('P22', 'Loop closure: searches finish before their node; each match is one constraint',
     'Every accepted pair of node and submap (close enough and sampled by its ratio, or any pair for a global search) starts exactly one search, writing its own slot, after the scan matcher of that submap is built, '
     'which is built once per submap; the node counts as finished only after all its searches, and the result is reported only after all nodes announced before, exactly once and containing each constraint found; '
     'afterwards the slots and the callback are cleared. A search matches the given node in the given submap (whole submap or around the given pose) with the threshold of its kind; a match at or below the threshold '
     'never becomes a constraint, a match above is refined and becomes one inter-submap constraint of that pair with the refined relative pose and the configured weights. Shared state is touched under the lock.',
     ['schedules', 'inputs', 'histories'], 'all interleavings of searches, nodes and results; all pairs and match outcomes; 2D and 3D',
     'Tests run one node against one submap; a missing task dependency shows only under a particular schedule.',
     [C + 'mapping/internal/constraints/constraint_builder_2d.cc', C + 'mapping/internal/constraints/constraint_builder_3d.cc'],
     [('search tasks', C + 'mapping/internal/constraints/constraint_builder_2d.cc: MaybeAddConstraint, MaybeAddGlobalConstraint, NotifyEndOfNode'),
      ('match', C + 'mapping/internal/constraints/constraint_builder_3d.cc: ComputeConstraint'), ('result', C + 'mapping/internal/constraints/constraint_builder_2d.cc: RunWhenDoneCallback')])

prop('P23', 'Pose graph changes run once, in order, under the lock; waiting waits for all',
     'Every change handed to the pose graph (nodes, sensor and landmark data, loaded submaps, nodes and trajectory data, trimmers, constraints, trajectory state changes, the final optimization) becomes exactly one work item that owns what it '
     'needs, is appended to the queue and runs once, in the order of the calls, on one thread at a time; data for a finished, deleted or deletion-scheduled trajectory is refused. An item that asks for an optimization stops the queue until '
     'the constraint search is done, its constraints are added and the optimization, trimming and deletion have run; then the remaining items go on, and an empty queue is dropped so that the next change starts a new one. '
     'Waiting for all computations, and the final optimization, return only after every item and search known before. Shared data is read and changed under the lock.',
     ['schedules', 'histories'], 'all interleavings of calls, worker threads and optimizations, 2D and 3D',
     'Tests add a handful of nodes from one thread; lost or reordered items need a particular interleaving of callers and the worker.',
     [C + 'mapping/internal/2d/pose_graph_2d.cc', C + 'mapping/internal/3d/pose_graph_3d.cc', C + 'mapping/internal/work_queue.h'],
     [('queue', C + 'mapping/internal/2d/pose_graph_2d.cc: AddWorkItem, DrainWorkQueue, HandleWorkQueue'), ('waiting', C + 'mapping/internal/3d/pose_graph_3d.cc: WaitForAllComputations, RunFinalOptimization'),
      ('items', C + 'mapping/internal/2d/pose_graph_2d.cc: Add..., Set..., Finish..., Freeze..., DeleteTrajectory')])
prop('P24', 'A new node gets its ids, poses, constraints and the right loop closure searches',
     'Adding a node appends it under the next id of its trajectory with its pose moved into the global frame, and appends its newest submap exactly when that submap is not stored yet. Its submaps get consecutive ids, in the optimization '
     'problem the pose of a new submap follows from the one before it by their local poses, and the node enters the optimization problem once, with time, local and global pose and gravity alignment. It is recorded in each submap '
     'it was inserted into, with one intra-submap constraint holding its pose relative to that submap and the configured weights. It is searched against every finished submap it is not part of; a submap that '
     'just finished is marked and all older nodes outside it are searched against it. A pair is searched locally when in the same trajectory, recently connected or not both frozen as configured, and otherwise globally at the sampled rate; '
     'connection times follow the constraints found, and initial poses are kept as given.',
     ['histories', 'inputs'], 'all sequences of nodes, submaps, trajectories and connection histories, 2D and 3D',
     'Tests add a few nodes to one trajectory and compare poses within a tolerance; a node missed by the search or a wrong frame for a later submap is invisible there.',
     [C + 'mapping/internal/2d/pose_graph_2d.cc', C + 'mapping/internal/3d/pose_graph_3d.cc'],
     [('nodes', C + 'mapping/internal/2d/pose_graph_2d.cc: AddNode, AppendNode'), ('submaps', C + 'mapping/internal/2d/pose_graph_2d.cc: InitializeGlobalSubmapPoses'),
      ('searches', C + 'mapping/internal/3d/pose_graph_3d.cc: ComputeConstraintsForNode, ComputeConstraint, UpdateTrajectoryConnectivity')])
prop('P25', 'Optimized poses are taken over; later nodes move along; queries report the state',
     'After an optimization every node of the problem has its optimized global pose (in 2D with its gravity alignment), every node added meanwhile is moved by the change of the local-to-global transform of its trajectory, every landmark '
     'has its optimized pose, and the submap poses become those of the problem; frozen trajectories and fixed trajectory relations are handed to the solver. The local-to-global transform of a trajectory is that of its last optimized submap, '
     'else its given initial pose relative to the other trajectory at that time, else identity. Every query returns exactly the stored nodes, submaps, poses, landmarks, constraints, measurements and connections, all of it read '
     'under the lock; a pose between two nodes is interpolated, outside it is that of the first or last node; a submap not optimized yet is placed by the transform of its trajectory.',
     ['histories', 'schedules'], 'all graphs, trajectories, optimization results and additions made meanwhile, 2D and 3D',
     'Tests optimize one small trajectory without additions in between, so nodes and submaps that came later, other trajectories and frames are not sampled.',
     [C + 'mapping/internal/2d/pose_graph_2d.cc', C + 'mapping/internal/3d/pose_graph_3d.cc'],
     [('optimization', C + 'mapping/internal/2d/pose_graph_2d.cc: RunOptimization'), ('transforms', C + 'mapping/internal/3d/pose_graph_3d.cc: ComputeLocalToGlobalTransform, GetInterpolatedGlobalTrajectoryPose'),
      ('queries', C + 'mapping/internal/2d/pose_graph_2d.cc: Get...')])
prop('P26', 'Trajectory states: finished, frozen, deleted only once and in order',
     'A trajectory counts as finished or frozen exactly when it was set so; unknown ones are neither. A change to a trajectory that is finished, deleted or scheduled for deletion is refused, any other is accepted. Finishing sets the state once, '
     'marks all its submaps finished and asks for an optimization; freezing sets it once and connects the trajectory with every frozen one it is not connected with yet. Deleting is refused for active and deleted trajectories, marks '
     'the trajectory for deletion at once, and removes all its submaps after the next optimization, before it counts as deleted; deleting an unknown trajectory changes nothing. Nothing else changes the state of a trajectory.',
     ['histories', 'schedules'], 'all sequences of finishing, freezing, deleting and adding, 2D and 3D',
     'Tests finish or delete one trajectory; refused transitions, pending deletions and several frozen trajectories are not sampled.',
     [C + 'mapping/internal/2d/pose_graph_2d.cc', C + 'mapping/internal/3d/pose_graph_3d.cc'],
     [('states', C + 'mapping/internal/2d/pose_graph_2d.cc: IsTrajectoryFinished, IsTrajectoryFrozen, CanAddWorkItemModifying'), ('deletion', C + 'mapping/internal/3d/pose_graph_3d.cc: DeleteTrajectory, DeleteTrajectoriesIfNeeded'),
      ('end', C + 'mapping/internal/2d/pose_graph_2d.cc: FinishTrajectory, FreezeTrajectory')])
prop('P27', 'Trimming removes a submap with all it alone holds, and only chosen submaps',
     'Trimming a submap, which must be finished, removes it from the graph and the optimization problem, drops its scan matcher, removes exactly the nodes no other submap holds, and exactly the constraints to it or of these nodes; nothing else changes. '
     'The pure localization trimmer keeps the configured number (at least two) of newest submaps of its trajectory and, once that is finished, removes all and marks it deleted. The overlap trimmer runs after the configured number of '
     'submaps was added, also when submaps were deleted meanwhile, and trims exactly the finished submaps whose area, counting of every cell of the world only the configured number of freshest submaps covering it, is below the configured minimum.',
     ['histories', 'inputs'], 'all graphs and trimmer configurations, submaps of any size',
     'Tests trim tiny graphs with a few cells; shared nodes, several trajectories and large submaps are not sampled.',
     [C + 'mapping/internal/2d/pose_graph_2d.cc', C + 'mapping/internal/3d/pose_graph_3d.cc', C + 'mapping/pose_graph_trimmer.cc', C + 'mapping/internal/2d/overlapping_submaps_trimmer_2d.cc'],
     [('trimming', C + 'mapping/internal/2d/pose_graph_2d.cc: TrimmingHandle::TrimSubmap'), ('pure localization', C + 'mapping/pose_graph_trimmer.cc: PureLocalizationTrimmer'),
      ('overlap', C + 'mapping/internal/2d/overlapping_submaps_trimmer_2d.cc: OverlappingSubmapsTrimmer2D')])
prop('P28', 'Local SLAM: a scan is placed, matched, inserted once, and reported as matched',
     'A scan is used only once the extrapolator was started (with the first IMU datum, or where no IMU is used with the first scan) and covers its first point. Every point is moved by the pose extrapolated to its own time; points nearer than the '
     'minimum range are dropped, points beyond the maximum become misses at the configured length, and the configured number of scans is accumulated into one, transformed to the newest pose with gravity aligned, cropped in height '
     'and filtered as configured. The scan is matched against the oldest active submap, starting from the prediction, or keeps the prediction when there is no submap or after an empty search; the matched pose, made three-dimensional '
     'again, goes to the extrapolator and is what is reported. The scan is inserted in the active submaps exactly when the motion filter finds a change of time, distance or angle above its limits since the last inserted scan, and then reported with these submaps. '
     'IMU and odometry data reach the extrapolator in order.',
     ['histories', 'inputs'], 'all sequences of range, IMU and odometry data, 2D and 3D',
     'Tests drive one synthetic corridor; limits, several accumulated scans, empty scans and stationary robots are not sampled.',
     [C + 'mapping/internal/2d/local_trajectory_builder_2d.cc', C + 'mapping/internal/3d/local_trajectory_builder_3d.cc', C + 'mapping/internal/motion_filter.cc'],
     [('2D', C + 'mapping/internal/2d/local_trajectory_builder_2d.cc: AddRangeData, AddAccumulatedRangeData, ScanMatch, InsertIntoSubmap'), ('3D', C + 'mapping/internal/3d/local_trajectory_builder_3d.cc: AddRangeData, AddAccumulatedRangeData, ScanMatch, InsertIntoSubmap'),
      ('motion filter', C + 'mapping/internal/motion_filter.cc: MotionFilter::IsSimilar')])
prop('P29', 'Extrapolated poses follow from the newest pose, velocities and IMU data in order',
     'An extrapolated pose is the newest added pose moved by the velocity (from odometry if there are two data, else from the poses) over the time since, and turned by what the IMU tracker turned since that pose; asking for the time of an added pose returns that pose. '
     'Velocities are differences of the oldest and newest datum kept, over their time, and from poses only when these cover the configured duration. Data kept always reach back to the newest pose, and older data are dropped. '
     'A tracker sees all IMU data up to the asked time, each once, in order and at its time; without IMU data it assumes upright gravity and the newest angular velocity. Estimating gravity changes nothing. '
     'Data from before the newest pose, and moving a tracker back in time, are refused. Gravity is the exponential moving average of the accelerations with the configured time constant, and starts with the first one.',
     ['histories', 'inputs'], 'all sequences of poses, IMU and odometry data and queries',
     'Tests feed regular synthetic data; repeated times, gaps, missing sensors and queries between additions are not sampled.',
     [C + 'mapping/pose_extrapolator.cc', C + 'mapping/imu_tracker.cc'],
     [('extrapolation', C + 'mapping/pose_extrapolator.cc: AddPose, AddImuData, AddOdometryData, ExtrapolatePose, AdvanceImuTracker'), ('tracker', C + 'mapping/imu_tracker.cc: ImuTracker')])
prop('P30', 'Sensor data reaches every component meant for it; set-up follows the options',
     'A map builder works in 2D or in 3D, never both or neither, with the configured pose graph, threads and collation. A new trajectory gets the next free id, local SLAM if it is configured (for exactly its range sensors), the configured odometry filter, trimmer and initial pose, '
     'and its options are kept. Collation waits for exactly the expected sensors, except landmarks and fixed frame poses that are not to be collated; these are passed on at once, everything else through the collator, and what comes out of it is '
     'delivered unchanged with its sensor id. IMU and odometry data reach local SLAM (if any) and the pose graph, odometry the latter only if the filter lets it; fixed frame poses and landmarks the pose graph; invalid poses are refused. '
     'A scan needs local SLAM; its result is reported exactly once it is matched, and an inserted scan becomes exactly one node with its submaps, reported with it. '
     'Finishing a trajectory flushes its sensor data before the pose graph finishes it. A submap query is answered for an existing submap, otherwise refused with an error.',
     ['histories', 'inputs'], 'all configurations, sensors and sequences of data, 2D and 3D',
     'Tests feed one range sensor in a default configuration; optional filters, uncollated sensors, missing local SLAM and refused queries are not sampled.',
     [C + 'mapping/map_builder.cc', C + 'mapping/internal/collated_trajectory_builder.cc', C + 'mapping/internal/global_trajectory_builder.cc', C + 'sensor/internal/dispatchable.h', C + 'mapping/internal/2d/local_slam_result_2d.cc'],
     [('builder', C + 'mapping/map_builder.cc: MapBuilder, AddTrajectoryBuilder, FinishTrajectory, SubmapToProto'), ('collation', C + 'mapping/internal/collated_trajectory_builder.cc: CollatedTrajectoryBuilder'),
      ('dispatch', C + 'mapping/internal/global_trajectory_builder.cc: GlobalTrajectoryBuilder')])
prop('P31', 'Every configured option arrives in its own field; unusable ones are refused',
     'Each option of the Lua configuration is read under its own name and kind and becomes, unchanged, the option field of that name, in every component and in 2D and 3D alike; nested options come from their own sub-dictionary. '
     'Optional sections (trimmers, odometry filter, free space insertion) may be missing, and have an effect exactly if they are there. Names of grid and inserter types stand for that type; unknown names, an inserter that does not fit the grid, 2D and 3D both or neither chosen, '
     'iteration, thread, range data or sample counts that are not positive, negative scan matching weights, a hit probability not above or a miss probability not below one half are refused. The solver gets the configured options. '
     'The shipped configuration files have exactly the keys, of the kinds, that are asked for.',
     ['inputs'], 'all configurations',
     'Tests read one configuration per component and compare few fields; a swapped or dropped option keeps them passing.',
     [C + 'mapping/map_builder_interface.cc', C + 'mapping/trajectory_builder_interface.cc', C + 'mapping/pose_graph.cc', C + 'mapping/2d/submap_2d.cc', C + 'common/internal/ceres_solver_options.cc', 'configuration_files/pose_graph.lua'],
     [('options', C + 'mapping/map_builder_interface.cc: CreateMapBuilderOptions and the options functions it reaches'), ('trajectories', C + 'mapping/trajectory_builder_interface.cc: CreateTrajectoryBuilderOptions and the options functions it reaches')])
prop('P32', 'Shared state is touched only under its lock, and locking cannot deadlock',
     'Tasks, the thread pool, blocking queues, constraint builders, trajectory connectivity and the pose graphs touch their shared state only while holding the mutex that guards it, from every public operation, every background task and every deferred work item, '
     'and wait for a condition only while holding it. Exceptions are the pose graph\'s own thread, which alone changes constraints, landmarks and the optimization problem and may read these and solve without the lock, and the work item of a running task. '
     'No mutex is taken again while it is held, different mutexes are always nested in the same order, callbacks are called without holding any, and no reference to guarded state is returned to callers. '
     'Trimming handles, which act on the locked pose graph, only exist while its lock is held.',
     ['schedules', 'histories'], 'all interleavings of all operations',
     'Data races and deadlocks need particular interleavings; tests run few threads and rarely meet them.',
     [C + 'common/task.cc', C + 'common/thread_pool.cc', C + 'common/internal/blocking_queue.h', C + 'mapping/internal/connected_components.cc', C + 'mapping/internal/constraints/constraint_builder_2d.cc', C + 'mapping/internal/constraints/constraint_builder_3d.cc',
      C + 'mapping/internal/2d/pose_graph_2d.cc', C + 'mapping/internal/3d/pose_graph_3d.cc'],
     [('guards', C + 'mapping/internal/2d/pose_graph_2d.h: members guarded by mutex_ and work_queue_mutex_'), ('tasks', C + 'common/task.h: members guarded by mutex_')])
prop('P33', 'Trajectories are connected exactly by chains of connections, at newest times',
     'Two trajectories are connected exactly if they are the same one or joined by a chain of connections, whatever the order in which trajectories and connections were added; components group all known trajectories by this relation, and a component query gives exactly its members. '
     'The number of connections between two trajectories is the number of times they were connected, in either order. A connection that joins two components sets the connection time of every pair across them; one between already connected trajectories advances only that pair\'s time, never back. '
     'The reported components are all components, with sorted members.',
     ['histories', 'inputs'], 'all sequences of additions and connections',
     'Tests connect a handful of trajectories; wrong joins show only for particular chains.',
     [C + 'mapping/internal/connected_components.cc', C + 'mapping/internal/trajectory_connectivity_state.cc'],
     [('forest', C + 'mapping/internal/connected_components.cc: ConnectedComponents'), ('times', C + 'mapping/internal/trajectory_connectivity_state.cc: TrajectoryConnectivityState')])
prop('P34', 'Correlative 2D matching searches its whole window and reports the best match',
     'The 2D correlative matchers search a window that covers the configured distance and angle on both sides of the initial pose (or the whole submap), one cell and less than a cell of rotation at the farthest point per step; each candidate has the pose of its offsets. '
     'The real-time matcher scores every candidate of the window by the mean over all scan points, weighed down by its distance, and reports the best one and its score. '
     'The loop closure matcher shrinks the window only where no point would hit the grid, starts from coarse candidates that together cover it, rates them by the maximum of the cells they could reach, leaves out only those that cannot exceed the required score, splits the others into halves within the window down to single cells, '
     'keeps the best, and reports a match exactly if its score is above the minimum, with that score and its pose relative to the initial one.',
     ['inputs', 'configurations'], 'all scans, grids, windows and depths',
     'Tests match a few synthetic scans whose best candidate is rarely at the edge of the window or of the grid.',
     [C + 'mapping/internal/2d/scan_matching/correlative_scan_matcher_2d.cc', C + 'mapping/internal/2d/scan_matching/correlative_scan_matcher_2d.h', C + 'mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc', C + 'mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.h', C + 'mapping/internal/2d/scan_matching/real_time_correlative_scan_matcher_2d.cc'],
     [('window', C + 'mapping/internal/2d/scan_matching/correlative_scan_matcher_2d.cc: SearchParameters'), ('search', C + 'mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc: FastCorrelativeScanMatcher2D::BranchAndBound'), ('bounds', C + 'mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc: PrecomputationGrid2D')])
prop('P90', 'Every cell crossed by a ray is visited, and only those',
     'Inserting a range measurement visits exactly the grid cells whose interior the ray from the sensor to the point crosses, for every pair of end points and every resolution, in 2D at subpixel scale and in 3D at the sampled steps.',
     ['inputs'], 'all rays', 'Tests rasterise a few short rays.',
     [C + 'mapping/internal/2d/ray_to_pixel_mask.cc', C + 'mapping/3d/range_data_inserter_3d.cc'],
     [('mask', C + 'mapping/internal/2d/ray_to_pixel_mask.cc: RayToPixelMask')])
prop('P91', 'Optimization brings the poses to the minimum of the stated costs',
     'Running an optimization leaves node, submap and landmark poses at a minimum of the sum of the constraint, odometry, landmark and fixed frame costs, and converges for consistent input.',
     ['inputs', 'histories'], 'all pose graphs', 'Tests optimise small synthetic graphs.',
     [C + 'mapping/internal/optimization/optimization_problem_2d.cc', C + 'mapping/internal/optimization/optimization_problem_3d.cc'],
     [('solve', C + 'mapping/internal/optimization/optimization_problem_2d.cc: OptimizationProblem2D::Solve')])
prop('P92', 'Continuous scan matching improves the pose it is given',
     'The continuous scan matchers return a pose whose cost is not above that of the initial estimate, and the derivatives they use are those of the costs.',
     ['inputs'], 'all scans and grids', 'Tests match a few synthetic scans.',
     [C + 'mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.cc', C + 'mapping/internal/2d/scan_matching/occupied_space_cost_function_2d.cc'],
     [('match', C + 'mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.cc: CeresScanMatcher2D::Match')])
