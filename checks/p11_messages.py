#!/usr/bin/env python3
"""Sensor data and poses survive the conversion to messages and back, component by component."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *

XYZ, WXYZ = 'xyz', (('w', 3), ('x', 0), ('y', 1), ('z', 2))


def j(*x):
    return '.'.join(y for y in x if y)


def vec_to(path, v, names=XYZ):
    return {j(path, n): '%s[%d]' % (v, i) for i, n in enumerate(names)}


def quat_to(path, v):
    return {j(path, n): '%s[%d]' % (v, i) for n, i in WXYZ}


def rigid_to(path, v):
    return {**vec_to(j(path, 'translation'), v + '.translation()'), **quat_to(j(path, 'rotation'), v + '.rotation()')}


def vec_from(v, names=XYZ):
    return 'Matrix(%s)' % ', '.join('%s.%s' % (v, n) for n in names)


def quat_from(v):
    return 'Quaternion(%s)' % ', '.join('%s.%s' % (v, n) for n, _ in WXYZ)


def rigid_from(v):
    return 'Rigid3(%s, %s)' % (vec_from(v + '.translation'), quat_from(v + '.rotation'))


def check(ctx):
    p = ctx.program('transform/*.cc')

    def by(*subs):
        return lambda f: all(s in p.ptypes(f)[0] for s in subs)
    R = ctx.result
    # poses and vectors
    for kind, f in (('double', 'Rigid3<double>'), ('float', 'Rigid3<float>')):
        R('pose-to-message', p, 'transform::ToProto', rigid_to('', 'rigid'), pred=by(f))
    for f in ('Rigid2<double>', 'Rigid2<float>'):
        R('pose-to-message', p, 'transform::ToProto', {**vec_to('translation', 'transform.translation()', 'xy'),
                                                       'rotation': 'transform.rotation().angle()'}, pred=by(f))
    R('pose-to-message', p, 'transform::ToProto', {'time': 'ToUniversal(transform.time)', **rigid_to('transform', 'transform.transform')},
      pred=by('TimestampedTransform'))
    for ty, n in (('Matrix<double, 2', 'xy'), ('Matrix<float, 3', 'xyz'), ('Matrix<double, 3', 'xyz'), ('Matrix<float, 4', 'xyzt')):
        R('vector-to-message', p, 'transform::ToProto', vec_to('', 'vector', n), pred=by(ty))
    R('rotation-to-message', p, 'transform::ToProto', quat_to('', 'quaternion'), pred=by('Eigen::Quaternion<'))
    ctx.value('pose-from-message', p, 'transform::ToRigid3', rigid_from('rigid'))
    ctx.value('pose-from-message', p, 'transform::ToRigid2', 'Rigid2(%s, transform.rotation)' % vec_from('transform.translation', 'xy'))
    R('pose-from-message', p, 'transform::FromProto', {'time': 'FromUniversal(proto.time)', 'transform': rigid_from('proto.transform')})
    for ty, n in (('Vector2d', 'xy'), ('Vector3f', 'xyz'), ('Vector3d', 'xyz'), ('Vector4f', 'xyzt')):
        ctx.value('vector-from-message', p, 'transform::ToEigen', vec_from('vector', n), pred=by(ty))
    ctx.value('rotation-from-message', p, 'transform::ToEigen', quat_from('quaternion'), pred=by('Quaterniond'))
    # sensor data
    p = ctx.program('sensor/*_data.cc', 'sensor/point_cloud.cc', 'sensor/compressed_point_cloud.cc', 'transform/transform.cc')

    def by(s):
        return lambda f: '::' + s + ' ' in p.ptypes(f)[0].replace('proto::', 'proto:')

    def pr(s):
        return lambda f: 'proto::' + s + ' ' in p.ptypes(f)[0]
    T, Fr = 'sensor::ToProto', 'sensor::FromProto'
    each = lambda *c, **kw: E('append', None, None, guard=kw.get('guard', 'true'), each=list(c))
    comp = lambda v, c, g='true': E('write', None, v, guard=g, each=[c])
    R('point-to-message', p, T, vec_to('position', 'rangefinder_point.position'), pred=by('RangefinderPoint'))
    R('point-to-message', p, T, {**vec_to('position', 'timed_rangefinder_point.position'), 'time': 'timed_rangefinder_point.time'}, pred=by('TimedRangefinderPoint'))
    R('point-from-message', p, Fr, {'position': vec_from('rangefinder_point_proto.position')}, pred=pr('RangefinderPoint'))
    R('point-from-message', p, Fr, {'position': vec_from('timed_rangefinder_point_proto.position'), 'time': 'timed_rangefinder_point_proto.time'},
      pred=pr('TimedRangefinderPoint'))
    R('imu-to-message', p, T, {'timestamp': 'ToUniversal(imu_data.time)', **vec_to('linear_acceleration', 'imu_data.linear_acceleration'),
                               **vec_to('angular_velocity', 'imu_data.angular_velocity')}, pred=by('ImuData'))
    R('imu-from-message', p, Fr, {'time': 'FromUniversal(proto.timestamp)', 'linear_acceleration': vec_from('proto.linear_acceleration'),
                                  'angular_velocity': vec_from('proto.angular_velocity')}, pred=pr('ImuData'))
    R('odometry-to-message', p, T, {'timestamp': 'ToUniversal(odometry_data.time)', **rigid_to('pose', 'odometry_data.pose')}, pred=by('OdometryData'))
    R('odometry-from-message', p, Fr, {'time': 'FromUniversal(proto.timestamp)', 'pose': rigid_from('proto.pose')}, pred=pr('OdometryData'))
    some = 'pose_data.pose != null'
    R('fixed-frame-pose-to-message', p, T, {'timestamp': 'ToUniversal(pose_data.time)', **{
        k: E('write', None, v, guard=some, each=[]) for k, v in rigid_to('pose', 'pose_data.pose').items()}}, pred=by('FixedFramePoseData'))
    R('fixed-frame-pose-from-message', p, Fr, {'time': 'FromUniversal(proto.timestamp)', 'pose': [
        E('write', None, rigid_from('proto.pose'), guard='has_(proto.pose)', each=[]), E('write', None, 'null', guard='!has_(proto.pose)', each=[])]},
      pred=pr('FixedFramePoseData'))
    L, M = 'landmark_data.landmark_observations', 'proto.landmark_observations'
    el = 'landmark_observations[_]'
    R('landmarks-to-message', p, T, {'timestamp': 'ToUniversal(landmark_data.time)', 'landmark_observations': each(L), **{
        j(el, k): comp(v, L) for k, v in {'id': L + '[$i].id', 'translation_weight': L + '[$i].translation_weight', 'rotation_weight': L + '[$i].rotation_weight',
                                          **rigid_to('landmark_to_tracking_transform', L + '[$i].landmark_to_tracking_transform')}.items()}}, pred=by('LandmarkData'))
    R('landmarks-from-message', p, Fr, {'time': 'FromUniversal(proto.timestamp)', 'landmark_observations': each(M), **{
        j(el, k): comp(v, M) for k, v in {'id': M + '[$i].id', 'translation_weight': M + '[$i].translation_weight', 'rotation_weight': M + '[$i].rotation_weight',
                                          'landmark_to_tracking_transform': rigid_from(M + '[$i].landmark_to_tracking_transform')}.items()}}, pred=pr('LandmarkData'))
    C = 'timed_point_cloud_data'
    R('timed-point-cloud-to-message', p, T, {
        'timestamp': 'ToUniversal(%s.time)' % C, **vec_to('origin', C + '.origin'), 'point_data': each(C + '.ranges'),
        **{j('point_data[_]', k): comp(v, C + '.ranges') for k, v in {**vec_to('position', C + '.ranges[$i].position'), 'time': C + '.ranges[$i].time'}.items()},
        'intensities': E('append', None, C + '.intensities[$i]', guard='true', each=[C + '.intensities'])}, pred=by('TimedPointCloudData'))
    new, old = '|proto.point_data| != 0', '|proto.point_data| == 0'
    s = R('timed-point-cloud-from-message', p, Fr, {
        'time': 'FromUniversal(proto.timestamp)', 'origin': vec_from('proto.origin'),
        'intensities': 'proto.intensities',
        'ranges': [each('proto.point_data', guard=new), each('proto.point_data_legacy', guard=old)],
        'ranges[_].position': [comp(vec_from('proto.point_data[$i].position'), 'proto.point_data', new),
                               comp(vec_from('proto.point_data_legacy[$i]'), 'proto.point_data_legacy', old)],
        'ranges[_].time': [comp('proto.point_data[$i].time', 'proto.point_data', new), comp('proto.point_data_legacy[$i].t', 'proto.point_data_legacy', old)]},
        pred=pr('TimedPointCloudData'))
    ctx.refuses('intensities-match-points', s, '|proto.intensities| == 0 || |proto.intensities| == |proto.point_data|',
                'a message with a wrong number of intensities is accepted')
    exp, back = vec_to('origin', 'range_data.origin'), {'origin': vec_from('proto.origin')}
    for c in ('returns', 'misses'):
        rc = 'range_data.%s' % c
        exp[c] = each('(%s|%s.points_)' % (rc, rc)) if False else E('append', None, None, guard='true', each=[rc + '.points_'])
        exp.update({j(c + '[_]', k): comp(v, rc + '.points_') for k, v in vec_to('position', rc + '.points_[$i].position').items()})
        pc, n, o = 'proto.' + c, '|proto.%s| != 0' % c, '|proto.%s| == 0' % c
        back[c + '.points_'] = [each(pc, guard=n), each(pc + '_legacy', guard=o)]
        back[c + '.points_[_].position'] = [comp(vec_from(pc + '[$i].position'), pc, n), comp(vec_from(pc + '_legacy[$i]'), pc + '_legacy', o)]
    R('range-data-to-message', p, T, exp, pred=by('RangeData'))
    R('range-data-from-message', p, Fr, back, pred=pr('RangeData'))
    R('compressed-cloud-to-message', p, 'sensor::CompressedPointCloud::ToProto', {
        'num_points': 'cast(int, this.num_points_)', 'point_data': E('append', None, 'this.point_data_[$i]', guard='true', each=['this.point_data_'])})
    f = [f for f in p.overloads('sensor::CompressedPointCloud::CompressedPointCloud') if f['params'] and 'proto' in p.ptypes(f)[0]]
    ctx.need(f, 'constructor from message')
    s = ctx.summarise(p, f[0])
    ctx.match('compressed-cloud-from-message', s, lambda e: e.kind in ('write', 'append', 'mutate') and on_fields('point_data_', 'num_points_', base='this')(e) and
              not (e.kind == 'write' and strip(e.val).op == 'obj'), [
        E('write', 'this.num_points_', 'proto.num_points', guard='true', each=[], casts=True),
        E('append', 'this.point_data_', 'proto.point_data[$i]', guard='true', each=['proto.point_data'])])


main('P11', check, 'symbolic evaluation of the message conversions: every component of the result as a function of the input',
     'each message component is the same-named component of the data, for every element; reading inverts writing, old formats included',
     tus=['transform/*.cc', 'sensor/*_data.cc', 'sensor/point_cloud.cc', 'sensor/compressed_point_cloud.cc'])
