"""writes known_findings.json: defects recorded (none) and repaired."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed = [l.strip() for l in '''
C04 34ea5bd time processes appended their record to the input object's own history
C25 34ea5bd time processes appended their record to the input object's own history
C25 08ff24f writers changed the metadata of the object being written
C13 fbf7f76 WindowedData.get_global added the global offset instead of subtracting it
C13 ed667ea windowing data of a single window or a single channel dropped a dimension
C18 f921f8c calibrating spectra of a single window or frequency dropped a dimension
C06 7f898d0 ApplyFunction returned uninitialised values for channels without a function
C17 ee47c47 Gaussian spectra smoothing ignored its sigma parameter
C13 6f7f45a WindowerTarget ignored the reference time it was given
C28 8dd0d02 validating a process or transfer function dictionary removed its name entry
C08 9c8b6dd Notch filter compared the band as a whole, not its upper edge, with Nyquist
C12 b439e5b window tables failed for overlaps above half the window size
C12 991286e window table of a level shorter than a window raised instead of being empty
C13 d98a8ff windowed metadata listed sampling frequencies of levels that were not windowed
C01 bfaecd4 floating point error moved a sample's own time to the neighbouring sample (e.g. 50 Hz)
C12 f16637d floating point error moved the first window by one window
C31 e31d9f6 reading a single channel ASCII file dropped the channel axis
'''.strip().splitlines()]
doc = dict(known=[], fixed=["fixed: property=" + l for l in fixed])
json.dump(doc, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
