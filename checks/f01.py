import shutil
import numpy as np
from hypothesis import strategies as st
from defdap import ebsd
from lib.framework import sub, check, close, same, raises
from lib import strats as S
from lib import maps as M
from lib import files as F


@st.composite
def cases(draw):
    spec = draw(M.ebsd_specs(hmax=6, wmax=6))
    n = len(spec['phases'])
    lat = draw(st.lists(F.file_phase(), min_size=n, max_size=n))
    return dict(spec=spec, phases=lat, step=draw(st.integers(1, 500000)) / 10000,
                rotate=draw(st.sampled_from([0, 0, 1, 3])),
                type=draw(st.sampled_from([None, 'OxfordText'])),
                load=draw(st.sampled_from([None, 'OxfordText', 'oxfordtext'])),
                name=draw(st.sampled_from(['out', 'a.b', 'map 1', 'out.ctf'])),
                gen=draw(st.booleans()), again=draw(st.booleans()),
                cut=draw(st.booleans()))


def ang_between(a, b):
    """Rotation angle between quaternions (4, ...) by the chord (accurate near zero)."""
    return 2 * np.arcsin(np.clip(np.minimum(np.sqrt(((a - b) ** 2).sum(0)),
                                            np.sqrt(((a + b) ** 2).sum(0))) / 2, 0, 1)) * 2


def quat_image(m):
    o = m.data.orientation
    return np.moveaxis(np.array([[q.quat_coef for q in row] for row in o]), -1, 0)


def same_map(m, phases, step, phase, bc, quats, what):
    h, w = phase.shape
    check(tuple(m.shape) == (h, w), f'{what}: shape {m.shape}, expected {(h, w)}')
    close(m.step_size, step, 6e-5, f'{what}: step size')
    check(m.num_phases == len(phases), f'{what}: {m.num_phases} phases, expected {len(phases)}')
    for p, want in zip(m.phases, phases):
        check(p.name == want.name and p.laue_group == want.laue_group
              and (p.spaceGroup or 0) == (want.spaceGroup or 0),
              lambda: f'{what}: phase {p.name!r} {p.laue_group} {p.spaceGroup}, expected '
                      f'{want.name!r} {want.laue_group} {want.spaceGroup}')
        close(p.lattice_params[:3], want.lattice_params[:3], 5.1e-4, f'{what}: lattice lengths')
        close(p.lattice_params[3:], want.lattice_params[3:], 1e-5, f'{what}: lattice angles')
        check(p.crystal_structure is want.crystal_structure, f'{what}: crystal structure')
        check(p.ss_file == want.ss_file, f'{what}: slip system file {p.ss_file}, {want.ss_file}')
        check((p.slip_systems is None) == (want.slip_systems is None), f'{what}: slip systems')
        for ga, gb in zip(p.slip_systems or [], want.slip_systems or []):
            for sa, sb in zip(ga, gb):
                check(sa.plane_idc == sb.plane_idc and sa.dir_idc == sb.dir_idc,
                      f'{what}: slip system {sa}, expected {sb}')
                close(sa.slip_plane, sb.slip_plane, 3e-3, f'{what}: slip plane')
    same(m.data.phase, phase, f'{what}: phase indices')
    same(m.data.band_contrast, bc, f'{what}: band contrast')
    close(np.rad2deg(ang_between(quat_image(m), quats)), 0 * quats[0], 2.5e-3,
          f'{what}: orientation (deg from the saved one)')


@sub(cases(), 250, 8000)
def round_trip(case):
    """Map with more than one pixel saved and reloaded, possibly rotated or with grains first;
    saving again is refused; a second round trip changes nothing more."""
    from defdap.crystal import Phase
    b = M.Built(case['spec'])
    d = b.dict()
    d['phases'] = [Phase(n, lg, sg or None, lat[:3] + tuple(np.deg2rad(lat[3:])))
                   for n, lg, sg, lat in case['phases']]
    d['step_size'] = case['step']
    m = ebsd.Map(d, data_type='pythondict')
    for _ in range(case['rotate']):
        m.rotate_data()
    if case['gen']:
        m.data.generate('grains', min_grain_size=2)
    quats = quat_image(m)
    phase, bc = np.array(m.data.phase), np.array(m.data.band_contrast)
    work = M.scratch('')
    work.mkdir()
    try:
        def save(mm, name):
            if case['type'] is None:
                mm.save(name, file_dir=str(work))
            else:
                mm.save(name, case['type'], file_dir=str(work))
        save(m, case['name'])
        path = work / (case['name'] + '.ctf')
        check(path.is_file(), f'no file {path.name} written: {[p.name for p in work.iterdir()]}')
        raw = path.read_bytes()
        for mm in (m,):
            raises(FileExistsError, lambda: save(mm, case['name']), 'existing file overwritten')
        check(path.read_bytes() == raw, 'existing file changed by a refused save')
        same(m.data.phase, phase, 'phase changed by saving')
        same(m.data.band_contrast, bc, 'band contrast changed by saving')
        same(quat_image(m), quats, 'orientations changed by saving')
        # an existing file is kept whatever it holds
        other = work / 'other.ctf'
        other.write_bytes(b'' if case['cut'] else raw[:40])
        raises(FileExistsError, lambda: save(m, 'other'), 'existing file overwritten')
        check(other.read_bytes() == (b'' if case['cut'] else raw[:40]),
              'existing file changed by a refused save')
        n = ebsd.Map(path, data_type=case['load'])
        same(n.data.band_slope, np.zeros(phase.shape), 'band slope of a map without one')
        same_map(n, d['phases'], case['step'], phase, bc, quats, 'reloaded map')
        if case['again']:
            save(n, 'second')
            k = ebsd.Map(work / 'second.ctf')
            same_map(k, n.phases, case['step'], phase, bc, quat_image(n), 'second round trip')
    finally:
        shutil.rmtree(work)
    return phase.size > 1


@sub(st.tuples(S.euler_plain, st.integers(1, 3), st.integers(1, 4)), 60, 2000)
def acquisition_header(case):
    """The header of a saved file describes an unrotated acquisition: loading adds nothing."""
    e, h, w = case
    from defdap.file_readers import OxfordTextLoader
    d = dict(step_size=1., phases=[M.make_phase('FCC')], phase=np.ones((h, w), np.uint8),
             euler_angle=np.tile(np.array(e)[:, None, None], (1, h, w)),
             band_contrast=np.zeros((h, w), np.uint8))
    m = ebsd.Map(d, data_type='pythondict')
    work = M.scratch('')
    work.mkdir()
    try:
        m.save('x', file_dir=str(work))
        ld = OxfordTextLoader()
        ld.load(work / 'x.ctf')
        close(abs(ld.loaded_metadata['acquisition_rotation'].quat_coef[0]), 1., 1e-6,
              'acquisition rotation')
    finally:
        shutil.rmtree(work)
    return True


@sub(st.tuples(F.ebsd_content(), F.ACQ), 80, 2500)
def written_table(case):
    """Non-trivial: rotated acquisition and several rows and columns. The file written has one
    row per pixel at the pixel's position (rows of the map in turn), and the header's acquisition
    rotation is the one given."""
    from defdap.crystal import Phase
    from defdap.file_readers import OxfordTextLoader
    from defdap.file_writers import EBSDDataWriter
    from defdap.quat import Quat
    c, acq = case
    a = F.EbsdArrays(c)
    h, w = a.shape
    wr = EBSDDataWriter.get_writer('OxfordText')
    wr.metadata['shape'], wr.metadata['step_size'] = (h, w), c['step']
    wr.metadata['acquisition_rotation'] = Quat.from_euler_angles(*np.deg2rad(acq))
    wr.metadata['phases'] = [Phase(n, lg, sg or None, lat[:3] + tuple(np.deg2rad(lat[3:])))
                             for n, lg, sg, lat in c['phases']]
    wr.data['phase'], wr.data['band_contrast'] = a.phase, a.bc
    wr.data['quat'] = Quat.create_many_quats(a.rad())
    work = M.scratch('')
    work.mkdir()
    try:
        wr.write('t', str(work))
        lines = (work / 't.ctf').read_text().splitlines()
        ld = OxfordTextLoader()
        ld.load(work / 't.ctf')
    finally:
        shutil.rmtree(work)
    got = ld.loaded_metadata['acquisition_rotation']
    want = S.mat_to_quat(S.rot_euler(*np.deg2rad(acq)))
    close(np.rad2deg(ang_between(np.array(got.quat_coef), want)), 0., 1e-3,
          'acquisition rotation (deg from the one written)')
    table = [dict(zip(lines[-h * w - 1].split('\t'), ln.split('\t'))) for ln in lines[-h * w:]]
    ys, xs = np.indices((h, w)).reshape(2, -1)
    check(len(table) == h * w, f'{len(table)} rows, expected {h * w}')
    for i, (row, y, x) in enumerate(zip(table, ys, xs)):
        close([float(row['X']), float(row['Y'])], [x * c['step'], y * c['step']], 5.1e-4,
              f'position of pixel {(y, x)}')
        check(int(row['Phase']) == a.phase[y, x] and int(row['BC']) == a.bc[y, x],
              lambda: f'values of pixel {(y, x)}: {row}')
        check((int(row['Error']) == 0) == (a.phase[y, x] > 0), lambda: f'error code of {row}')
    return any(acq) and h > 1 and w > 1
