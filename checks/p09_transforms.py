#!/usr/bin/env python3
"""Rigid transforms: composition, inverse, application and conversions are the group operations."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *


def check(ctx):
    p = ctx.program('transform/*.cc', 'aux:transform.cc')
    T = lambda *subs: (lambda f: all(s in ' '.join(p.ptypes(f)) for s in subs))
    N = lambda n, *subs: (lambda f: len(f['params']) == n and all(s in ' '.join(p.ptypes(f)) for s in subs))
    for R, Q in (('Rigid2', 'Rotation2D::Identity()'), ('Rigid3', 'QuaternionBase::Identity()')):
        K = 'transform::' + R
        for f in p.overloads('%s::%s' % (K, R)):
            if f.get('implicit') or len(f['params']) == 1:
                continue
            s = ctx.summarise(p, f)
            par = [x.a[0] for x in s.params]
            t, r = ('DenseBase::Zero()', Q) if not par else par
            ctx.spec_on('parts-stored', s, [
                E('write', 'this.translation_', t, guard='true', each=[]),
                E('write', 'this.rotation_', r, guard='true', each=[], casts=True)])
        ctx.value('parts-returned', p, K + '::translation', 'this.translation_')
        ctx.value('parts-returned', p, K + '::rotation', 'this.rotation_')
        ctx.value('inverse', p, K + '::inverse', {
            'Rigid2': 'Rigid2(-(this.rotation_.inverse() @ this.translation_), this.rotation_.inverse())',
            'Rigid3': 'Rigid3(-(this.rotation_.conjugate() @ this.translation_), this.rotation_.conjugate())'}[R])
        ctx.result('identity', p, K + '::Identity', {'rotation_': Q, 'translation_': 'DenseBase::Zero()'})
        ctx.value('pure-translation', p, K + '::Translation', '%s(vector, %s)' % (R, Q))
        for f in p.overloads(K + '::Rotation'):
            par = ctx.summarise(p, f).params[0].a[0]
            ctx.value('pure-rotation', p, f, '%s(DenseBase::Zero(), %s)' % (R, par))
        ctx.value('cast-keeps-the-parts', p, K + '::cast', '%s(this.translation_.cast(), this.rotation_.cast())' % R)
        C = '(lhs.rotation() @ rhs.rotation())' + ('.normalized()' if R == 'Rigid3' else '')
        ctx.value('composition', p, 'transform::operator*', '%s((lhs.rotation() @ rhs.translation()) + lhs.translation(), %s)' % (R, C),
              pred=lambda f: all(R + '<' in t for t in p.ptypes(f)))
        ctx.value('application', p, 'transform::operator*', '(rigid.rotation() @ point) + rigid.translation()',
              pred=lambda f: R + '<' in p.ptypes(f)[0] and 'Eigen' in p.ptypes(f)[1])
    ctx.value('arrays-are-quaternion-and-translation', p, 'transform::Rigid3::FromArrays',
          'Rigid3(Map(translation), Quaternion(rotation[0], rotation[1], rotation[2], rotation[3]))')
    ctx.value('validity', p, 'transform::Rigid3::IsValid',
          '!isnan(this.translation_[0]) && !isnan(this.translation_[1]) && !isnan(this.translation_[2]) && abs(1 - this.rotation_.norm()) < 0.001')
    ctx.value('angle-normalized', p, 'transform::Rigid2::normalized_angle', 'NormalizeAngleDifference(this.rotation().angle())')
    ctx.value('printed-parts', p, 'transform::Rigid2::DebugString', 'Substitute(_, Arg(this.translation()[0]), Arg(this.translation()[1]), Arg(this.rotation().angle()))')
    ctx.value('printed-parts', p, 'transform::Rigid3::DebugString', 'Substitute(_, Arg(this.translation()[0]), Arg(this.translation()[1]), Arg(this.translation()[2]), '
          'Arg(this.rotation()[3]), Arg(this.rotation()[0]), Arg(this.rotation()[1]), Arg(this.rotation()[2]))')
    # angles
    ctx.value('rotation-angle', p, 'transform::GetAngle', '2 * atan2(transform.rotation().vec().norm(), abs(transform.rotation()[3]))')
    ctx.value('yaw', p, 'transform::GetYaw', 'atan2((rotation @ MatrixBase::UnitX())[1], (rotation @ MatrixBase::UnitX())[0])', pred=T('Eigen'))
    ctx.value('yaw', p, 'transform::GetYaw', 'GetYaw(transform.rotation())', pred=T('Rigid3'))
    ctx.trial(lambda alt: ctx.value('projection', p, 'transform::Project2D', 'Rigid2(Matrix(transform.translation()[0], transform.translation()[1]), GetYaw(%s))' % alt('transform')),
              lambda x: x + '.rotation()')
    ctx.value('embedding', p, 'transform::Embed3D',
          'Rigid3(Matrix(transform.translation()[0], transform.translation()[1], 0), AngleAxis(transform.rotation().angle(), MatrixBase::UnitZ()))')
    q = 'quaternion.normalized()'
    A = 'atan2(%s.vec().norm(), %s)'
    vec = lambda k: 'Matrix(%s)' % ', '.join('%s * %s[%d]' % (k, q, i) for i in range(3))
    cases = {}
    for neg in (True, False):
        w = ('-%s[3]' if neg else '%s[3]') % q
        a = A % (q, w)
        sg = '-1 * ' if neg else ''
        side = '%s[3] < 0' % q if neg else '0 <= %s[3]' % q
        cases['%s && 2 * %s < 1e-7' % (side, a)] = vec(sg + '2')
        cases['%s && 1e-7 <= 2 * %s' % (side, a)] = vec(sg + '(2 * %s / sin(%s))' % (a, a))
    ctx.value('quaternion-to-angle-axis', p, 'transform::RotationQuaternionToAngleAxisVector', cases)
    big = '1e-08 < angle_axis.squaredNorm()'
    V = 'angle_axis[%d] * sin(0.5 * angle_axis.norm()) / angle_axis.norm()'
    ctx.value('angle-axis-to-quaternion', p, 'transform::AngleAxisVectorToRotationQuaternion', {
        big: 'Quaternion(cos(0.5 * angle_axis.norm()), %s)' % ', '.join(V % i for i in range(3)),
        '!(%s)' % big: 'Quaternion(1, 0.5 * angle_axis[0], 0.5 * angle_axis[1], 0.5 * angle_axis[2])'})
    RPY = '(AngleAxis(%s, MatrixBase::UnitZ()) @ AngleAxis(%s, MatrixBase::UnitY())) @ AngleAxis(%s, MatrixBase::UnitX())'
    ctx.value('roll-pitch-yaw', p, 'transform::RollPitchYaw', RPY % ('yaw', 'pitch', 'roll'))
    D = 'dictionary.GetDictionary("%s")'
    t = D % 'translation' + '.GetArrayValuesAsDoubles()'
    r = D % 'rotation'
    tr = 'Matrix(%s[0], %s[1], %s[2])' % (t, t, t)
    ra = r + '.GetArrayValuesAsDoubles()'
    qd = 'Quaternion(%s)' % ', '.join('%s.GetDouble("%s")' % (r, k) for k in 'wxyz')
    ctx.value('transform-from-dictionary', p, 'transform::FromDictionary', {
        r + '.HasKey("w")': 'Rigid3(%s, %s)' % (tr, qd),
        '!%s.HasKey("w")' % r: 'Rigid3(%s, %s)' % (tr, RPY % (ra + '[2]', ra + '[1]', ra + '[0]'))})
    s = ctx.summarise(p, p.fn('transform::FromDictionary'))
    ctx.ob('configured-transform-well-formed', s.fn['sqn'], enforced(s, '|%s| == 3' % t), 'a translation without three numbers is accepted')
    for what, c in (('unit-quaternion', '%s.norm() <= 1 + 1e-9' % qd), ('unit-quaternion', '1 - 1e-9 <= %s.norm()' % qd)):
        ctx.ob('configured-transform-well-formed', s.fn['sqn'], enforced(s, '!%s.HasKey("w") || %s' % (r, c)), what)
    ctx.ob('configured-transform-well-formed', s.fn['sqn'], enforced(s, '%s.HasKey("w") || |%s| == 3' % (r, ra)), 'rotation of wrong size accepted')


main('P09', check, 'symbolic evaluation of every transform operation to a canonical algebraic form',
     'each operation returns the canonical formula of the rigid-motion group (product, inverse, action, angle, projection)',
     tus=['transform/*.cc', 'aux:transform.cc'])
