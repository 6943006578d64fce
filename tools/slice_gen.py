"""Writes the dimwits/ENDFtk/elementary/interpolation-free slice of the project into OUT.

    python3 gen.py /repo/src OUT

The project's headers are fragments that its umbrella headers pull in, and the umbrella headers
include njoy libraries that are not available here. This copies, from the files as they are now,
the umbrella headers and test drivers named in FILES (and the few more in LOG_FILES and SIBLINGS),
without

  - the #include lines listed in CUT_INCLUDES;
  - the namespace-scope statements that name something of a missing library (CUT_STATEMENTS);
  - in LOG_FILES, the statements that only write a log message (CUT_LOG).

Nothing is added or replaced, and every header that is not listed is used from /repo/src itself.
A kept header that starts to need a missing library makes the build fail."""

import os
import re
import sys

FILES = [
    "resonanceReconstruction.hpp",
    "resonanceReconstruction/rmatrix.hpp",
    "resonanceReconstruction/test/resonanceReconstruction.test.cpp",
    "resonanceReconstruction/rmatrix/test/rmatrix.test.cpp",
]

# copied whole but for their one-line logging statements (njoy::Log is missing too)
LOG_FILES = [
    "resonanceReconstruction/rmatrix/src/coh3-extwave.hpp",
    "resonanceReconstruction/test/penetrationShift.test.hpp",
]
# copied whole, because they include the copied coh3-extwave.hpp from their own directory
SIBLINGS = [
    "resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp",
    "resonanceReconstruction/rmatrix/src/coh3-asympt.hpp",
]
CUT_LOG = re.compile(r"^[ \t]*(njoy::)?Log::\w+\([^;]*\);[ \t]*$", re.M)

R = "resonanceReconstruction/"
CUT_INCLUDES = {
    # libraries that are not here
    "interpolation.hpp",
    "dimwits.hpp",
    "elementary.hpp",
    "ENDFtk/section/2/151.hpp",
    # project headers that use them
    R + "src/radius.hpp",
    R + "src/channelRadius.hpp",
    R + "src/root.hpp",
    R + "src/neutronWaveNumber.hpp",
    R + "EnergyRange.hpp",
    R + "ZeroWidth.hpp",
    R + "breitWigner.hpp",
    R + "reichMoore.hpp",
    R + "rmatrix/Table.hpp",
    R + "rmatrix/LMatrixCalculator.hpp",
    R + "rmatrix/Particle.hpp",
    R + "rmatrix/ParticlePair.hpp",
    R + "rmatrix/ChannelRadiusTable.hpp",
    R + "rmatrix/ChannelRadii.hpp",
    R + "rmatrix/Channel.hpp",
    R + "rmatrix/ParticleChannel.hpp",
    R + "rmatrix/ParticleChannelData.hpp",
    R + "rmatrix/Resonance.hpp",
    R + "rmatrix/ResonanceTable.hpp",
    R + "rmatrix/RLMatrixCalculator.hpp",
    R + "rmatrix/SpinGroup.hpp",
    R + "rmatrix/CompoundSystem.hpp",
    R + "rmatrix/legacy.hpp",
    R + "rmatrix/src/makeQuantumNumbers.hpp",
    R + "rmatrix/src/makeParticlePairs.hpp",
    R + "rmatrix/src/makeParticleChannels.hpp",
    R + "rmatrix/src/makeParticleChannelData.hpp",
    R + "rmatrix/src/makeChannelRadiusTable.hpp",
    R + "rmatrix/src/makeChannelRadii.hpp",
    R + "rmatrix/src/makeCompoundSystem.hpp",
    R + "rmatrix/src/makeReichMooreChannelData.hpp",
    R + "rmatrix/src/makeReichMooreCompoundSystem.hpp",
    R + "rmatrix/src/makeLegacyBreitWignerSpinGroups.hpp",
    R + "rmatrix/src/makeLegacyBreitWignerCompoundSystem.hpp",
    R + "rmatrix/src/makeLegacyUnresolvedResonanceTable.hpp",
    R + "rmatrix/src/makeLegacyUnresolvedSpinGroups.hpp",
    R + "rmatrix/src/makeLegacyUnresolvedCompoundSystem.hpp",
    R + "rmatrix/Reconstructor.hpp",
    R + "rmatrix/src/fromENDF.hpp",
    # the tests of those headers
    R + "test/channelRadius.test.hpp",
    R + "test/radius.test.hpp",
    R + "test/neutronWaveNumber.test.hpp",
    R + "rmatrix/test/fromENDF.test.hpp",
    R + "rmatrix/test/fromENDFResolvedSLBW.test.hpp",
    R + "rmatrix/test/fromENDFResolvedMLBW.test.hpp",
    R + "rmatrix/test/fromENDFResolvedReichMoore.test.hpp",
    R + "rmatrix/test/fromENDFUnresolved.test.hpp",
}

CUT_STATEMENTS = re.compile(
    r"\bQuantity\s*<|\bdimwits\b|\bENDFtk\b|\belementary::|\bendf::|\bunit::"
    r"|\b(Inv)?(Root)?(Barns?|ElectronVolts?)\b|\bElectronVoltSeconds?\b|\bCoulombSquaredSecondPerMeter\b|\bElectronVolts?\(|\bCoulomb\(|\bfarad\b"
    r"|\bAtomicMass\b|\bElectricalCharge\b|\blegacy::"
)


def cut(text):
    out, stmt = [], []

    def flush():
        if stmt and not CUT_STATEMENTS.search("\n".join(re.sub(r"//.*", "", s) for s in stmt)):
            out.extend(stmt)
        else:
            out.extend("" for _ in stmt)  # keeps the line numbers
        stmt.clear()

    for line in text.split("\n"):
        code = re.sub(r"//.*", "", line).strip()
        include = re.match(r'#\s*include\s*["<]([^">]+)[">]', code)
        if include:
            flush()
            out.append("" if include.group(1) in CUT_INCLUDES else line)
        elif code.startswith("#") or (not code and not stmt):
            flush()
            out.append(line)
        elif re.match(r"(inline\s+)?namespace\b[^;]*\{$", code) or code == "}":
            flush()
            out.append(line)
        else:
            stmt.append(line)
            if code.endswith(";"):
                flush()
    flush()
    return "\n".join(out)


def cut_log(text):
    return CUT_LOG.sub("", text)


def main(src, dst):
    jobs = [(n, cut) for n in FILES] + [(n, cut_log) for n in LOG_FILES] + [(n, str) for n in SIBLINGS]
    for name, change in jobs:
        with open(os.path.join(src, name), encoding="utf-8", errors="surrogateescape") as f:
            new = '#line 1 "%s"\n' % os.path.join(src, name) + change(f.read())
        path = os.path.join(dst, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if os.path.exists(path):
            with open(path, encoding="utf-8", errors="surrogateescape") as f:
                if f.read() == new:
                    continue
        with open(path, "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(new)


main(sys.argv[1], sys.argv[2])
