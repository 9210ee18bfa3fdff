from common import *
import levels, json
from gen import *
from resistics import calibrate as Cal
from resistics.errors import CalibrationFileNotFound


def cal_data(rng, sensor="", serial="1"):
    n = rng.choice([1, 2, 5, 9])
    f = sorted(rng.uniform(0, 60) for _ in range(n))
    return Cal.CalibrationData(file_path=None, sensor=sensor, serial=serial, frequency=f, magnitude=[rng.uniform(0.2, 5) for _ in f], phase=[rng.uniform(-3, 3) for _ in f])


class Given(Cal.SensorCalibrationReader):
    """a reader that knows some channels."""
    known: dict = {}
    fail: str = "missing"

    def run(self, dir_path, metadata, chan):
        if chan in self.known:
            return self.known[chan]
        if self.fail == "missing":
            raise CalibrationFileNotFound(dir_path, dir_path / chan)
        raise ValueError("cannot be read")


def setup(rng):
    sd = levels.spectra(rng)
    cs = sd.metadata.chans
    cals = {c: cal_data(rng) for c in cs if rng.random() < 0.6}
    chosen = rng.choice([None, rng.sample(cs, rng.randrange(0, len(cs) + 1)) + rng.choice([[], ["nowhere"]])])
    return sd, cals, Given(known=cals, fail=rng.choice(["missing", "broken"])), chosen


def response(cal, freqs):
    m, p = [], []
    f = cal.frequency
    for x in freqs:
        if x <= f[0]:
            a, b = cal.magnitude[0], cal.phase[0]
        elif x >= f[-1]:
            a, b = cal.magnitude[-1], cal.phase[-1]
        else:
            i = max(i for i in range(len(f)) if f[i] <= x)
            u = (x - f[i]) / (f[i + 1] - f[i])
            a, b = [v[i] + (v[i + 1] - v[i]) * u for v in (cal.magnitude, cal.phase)]
        m.append(a)
        p.append(b)
    return np.array(m) * np.exp(1j * np.array(p))


def expect(sd, cals, chosen, out):
    for l, x in enumerate(sd.metadata.levels_metadata):
        same(out.data[l].shape, sd.data[l].shape, f"shape of level {l}")
        for i, c in enumerate(sd.metadata.chans):
            if c in cals and (chosen is None or c in chosen):
                close(out.data[l][:, i], sd.data[l][:, i] / response(cals[c], x.freqs), f"level {l} calibrated channel {c}", rtol=1e-9)
            else:
                same(out.data[l][:, i], sd.data[l][:, i], f"level {l} channel {c} not calibrated")


@scenario(weight=3)
def calibrate(rng):
    sd, cals, reader, chosen = setup(rng)
    note(chans=sd.metadata.chans, calibrated=sorted(cals), asked=chosen, freqs=[x.freqs for x in sd.metadata.levels_metadata])
    out = Cal.SensorCalibrator(chans=chosen, readers=[reader]).run(__import__("pathlib").Path("/nowhere"), sd)
    expect(sd, cals, chosen, out)


@scenario(weight=2)
def order(rng):
    """the first reader in the list that can provide data."""
    sd = levels.spectra(rng, n_levels=1)
    cs = sd.metadata.chans
    rs, first = [], {}
    for _ in range(rng.randrange(0, 4)):
        k = {c: cal_data(rng) for c in cs if rng.random() < 0.5}
        rs.append(Given(known=k, fail=rng.choice(["missing", "broken"])))
        for c, v in k.items():
            first.setdefault(c, v)
    note(chans=cs, readers=[sorted(r.known) for r in rs])
    out = Cal.SensorCalibrator(readers=rs).run(__import__("pathlib").Path("/nowhere"), sd)
    expect(sd, first, None, out)


@scenario()
def files(rng):
    """JSON files found by sensor and serial."""
    sd = levels.spectra(rng, n_levels=rng.randrange(1, 3))
    m = sd.metadata
    fs = rng.choice(["IC_$sensor$extension", "$sensor_$serial$extension", "cal-$serial-$sensor$extension", "fixed.json"])
    cals, have = {}, {}
    with Scratch() as d:
        for i, c in enumerate(m.chans):
            cm = m.chans_metadata[c]
            n = fs.replace("$sensor", cm.sensor).replace("$serial", cm.serial).replace("$extension", ".json")
            if n not in have and rng.random() < 0.6:
                cal = cal_data(rng, cm.sensor, cm.serial)
                (d / n).write_text(cal.json())
                have[n] = cal
        for c in m.chans:
            cm = m.chans_metadata[c]
            n = fs.replace("$sensor", cm.sensor).replace("$serial", cm.serial).replace("$extension", ".json")
            if n in have:
                cals[c] = have[n]
        r = Cal.SensorCalibrationJSON(file_str=fs)
        note(chans=m.chans, file_str=fs, files=sorted(have), sensors={c: (m.chans_metadata[c].sensor, m.chans_metadata[c].serial) for c in m.chans})
        for c in m.chans:
            if c in cals:
                g = r.run(d, m, c)
                same([g.frequency, g.magnitude, g.phase, g.serial, g.sensor, g.static_gain], [getattr(cals[c], k) for k in ("frequency", "magnitude", "phase", "serial", "sensor", "static_gain")], f"data of {c}")
            else:
                refused(f"no file for {c}", CalibrationFileNotFound, r.run, d, m, c)
        out = Cal.SensorCalibrator(readers=[r]).run(d, sd)
        expect(sd, cals, None, out)
