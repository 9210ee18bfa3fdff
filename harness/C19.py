from common import *
from gen import *
from resistics import calibrate as Cal


def write(rng):
    """a calibration file and what it says."""
    has = {k: rng.random() < 0.7 for k in ("serial", "sensor", "gain", "mu", "pu", "chopper")}
    serial, sensor = str(rng.randrange(1, 999)), rng.choice(["LEMI120", "MFS", "abc"])
    gain, mu, pu = rng.choice(["1", "2.5", "0.1", "1e-3"]), rng.choice(["mV/nT", "V/nT", "nT"]), rng.choice(["radians", "degrees"])
    up = rng.choice([str, str.upper, str.lower, str.title])
    sp = rng.choice([" = ", "=", " =  "])
    lines = []
    if has["serial"]:
        lines.append(up("Serial") + sp + serial)
    if has["sensor"]:
        lines.append(up("Sensor") + sp + sensor)
    if has["gain"]:
        lines.append(up("Static gain") + sp + gain)
    if has["mu"]:
        lines.append(up("Magnitude unit") + sp + mu)
    if has["pu"]:
        lines.append(up("Phase unit") + sp + pu)
    if has["chopper"]:
        lines.append(up("Chopper") + sp + rng.choice(["True", "False"]))
    rng.shuffle(lines)
    for _ in range(rng.randrange(2)):
        lines.insert(rng.randrange(len(lines) + 1), "")
    lines.append("CALIBRATION DATA")
    n = rng.choice([1, 2, 3, 10, 30])
    f = rng.sample(range(1, 1000), n)
    rows = [(x / 10, round(rng.uniform(0.01, 20), 5), round(rng.uniform(-180, 180), 5)) for x in f]
    if rng.random() < 0.5:
        rows.sort()
    s = rng.choice([" ", "\t", "   "])
    lines += [s.join(repr(v) if rng.random() < 0.8 else f"{v:.8e}" for v in r) for r in rows]
    if rng.random() < 0.5:
        lines += ["", "1000 1 1", "comment"][:rng.choice([1, 2, 3])]
    exp = dict(serial=serial.lower() if has["serial"] else "1", sensor=sensor.lower() if has["sensor"] else "", static_gain=float(gain) if has["gain"] else 1.0,
               magnitude_unit=(up(mu) if False else mu) if has["mu"] else "mV/nT")
    deg = has["pu"] and pu == "degrees"
    rows = sorted((a, b, c * (np.pi / 180) if deg else c) for a, b, c in rows)
    return lines, exp, rows


def chan_meta():
    from resistics.time import ChanMetadata
    return ChanMetadata(name="Hx", chan_type="magnetic", sensor="s", serial="1")


@scenario(weight=3)
def text(rng):
    lines, exp, rows = write(rng)
    note(file=lines[:12])
    with Scratch() as d:
        p = d / "cal.TXT"
        p.write_text("\n".join(lines) + rng.choice(["", "\n"]))
        c = Cal.SensorCalibrationTXT().read_calibration_data(p, chan_meta())
    same(len(c.frequency), len(rows), "number of rows")
    close(np.array(c.frequency), np.array([r[0] for r in rows]), "frequencies", rtol=1e-7)
    close(np.array(c.magnitude), np.array([r[1] for r in rows]), "magnitudes", rtol=1e-7)
    close(np.array(c.phase), np.array([r[2] for r in rows]), "phases in radians", rtol=1e-7)
    same(c.n_samples, len(rows), "n_samples")
    same([str(c.serial), c.sensor.lower(), c.static_gain, c.magnitude_unit], [exp["serial"], exp["sensor"], exp["static_gain"], exp["magnitude_unit"]], "header values")


@scenario()
def no_header(rng):
    lines, exp, rows = write(rng)
    lines = [x for x in lines if x != "CALIBRATION DATA"]
    note(file=lines[:12])
    with Scratch() as d:
        p = d / "cal.TXT"
        p.write_text("\n".join(lines))
        refused("file without data header", ValueError, Cal.SensorCalibrationTXT().read_calibration_data, p, chan_meta())
