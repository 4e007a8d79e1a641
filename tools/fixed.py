"""(Re)writes the fixed: records of known_findings.jsonl from the table below."""
F = """C02 C03 C04|7da4786|integer setpoints were kept as integer arrays: relative/additive changes and clipping truncated or raised
C21 C12|986e960|building the model lattice zeroed the dipole setpoints of the machine itself (aliased arrays)
C21|5a97fe7|model lattice with apertures raised or aliased
C01 C12|9e41ff4|systematic multipoles: both targets got the same column, the caller's array was modified
C07|c34773f|rolls of supports wrapping around the injection point were applied outside the support
C07|91a2a49|elements at the boundary of two supports got the displacement of the wrong support
C05|08e57a5|registering a support erased uncertainties declared earlier at the same ordinates
C03|12d43ca|skew setpoints triggered the dipole compensation
C11|2320ac1|covariance of generated bunches differed from the beam matrix for correlated planes
C06 C07|da3f8e5|support errors accumulated or raised when applied repeatedly
C06 C12|14a3403|BPM noise levels shared memory with the declared uncertainties
C18|5b50542|pseudo-inverse of rank-deficient matrices was not finite; removing all singular values removed none
C19|847135a|truncated random numbers of empty array shapes raised
C20|5356405|missing values counted in the sample size of unweighted errors
C12|75c885d|deep copy lost / shared the design lattice
C04|ada2df9|setting an unknown cavity property was accepted
C06|087aa85|support end points used the uncertainties of the start point
C10|6f6f899|pseudo-orbit reading of BPMs which no beam reached was a number
C11|7c9477c|bunches of singular or degenerate beam matrices were NaN or had the wrong covariance
C27 C12|a98bb58|verification raised on machines with split magnets
C13 C14|50f3f6e|stitching and balancing modified the reference of the caller
C14|30ea1a7|stability was judged over both planes together, vanishing readings were never stable
C14 C13|070d736|orbit correction without initial transmission set correctors to NaN
C17|caa40d3|alignment measurement raised for BPM readings without noise
C17|ad69abc|alignment measurement without usable data raised and discarded all other results
C17|98896b9|alignment results of unknown error were applied
C17|442dd82|slope errors were variances: insignificant slopes passed as significant, wrong offsets were applied when only they were left
C22|1db35f2|response matrix measurement raised for scalar amplitude and for every number of steps
C15 C22|0b08b67|response measurement raised when a kick lost beam, leaving the corrector displaced
C22|69028c0|response was divided by the requested and not the real kick at corrector limits and after reduced steps
C22|5d59597|dispersion measurement with more than two steps raised
C15|1ff424c|LOCO response measurement left the machine in orbit mode with one turn and one particle
C15 C22|f99c04d|LOCO response at corrector limits was divided by the requested kick and left the corrector displaced
C29|844c1f8|Gauss-Newton lattice fit used the Jacobian of the first instead of the selected parameters
C29|cb27b04|Gauss-Newton lattice fit applied weights one and a half times on one side
C25|f86e4fb|injection trajectory fit minimised the mean deviation, any angle fitted
C25|de8e095|injection trajectory fit reported no correction when beam was lost
C22|8b2b261|response measurement at fixed offset with unread BPMs set correctors to NaN
C22|7b377a8|dispersion column of the LOCO Jacobian mixed two model lattices and steps
C25|3d9d47b|injection trajectory fit stopped at 0.1 mm
C26|cc11fa5|chromaticity fit truncated sextupole setpoints to integers
C26|e5b2e19|chromaticity fit left the sextupoles at the last trial
C26 C15|5c4f2b7|tune scan set the quadrupoles to the inverse relative setting of the design instead of restoring them
C26|946573e|tune scan over even numbers of setpoints raised with displaced quadrupoles
C16|ee7aa94|RF phase correction: fit from a bad start gave the wrong crossing after losses; insignificant measurements raised TypeError
C21|59b83e6|apertures of the model lattice were shared with the machine
C21|75aeff4|model lattice of machines with unregistered cavities could not be built
C23|11d1182|SCsynchEnergyCorrection always raised (unknown argument)
C23|71652cb|RF corrections of the Matlab interface left the number of turns changed when they failed
C23 C28|a061395|SCplotLattice and SCplotPhaseSpace raised with their default arguments
C28|5dadfaf|BBA plots changed the default font size
C28|2fd0e6b|rejected phase space plot changed the default font size
C28|075668c|support plot of a part of the ring raised or drew other supports
C28|c016878|debug mode fixed the logger at its effective level and left its log file open
C28|792fcff|plot of the injection fit showed the reading with the correction applied twice
C16|9510fcc|reported phase error exceeded half an RF period
C13|15f344c|wiggling after complete beam loss wiggled correctors downstream of the last BPM reached (index -1)
C29|59931c5|Gauss-Newton lattice fit used the column sums of the Jacobian in its right-hand side
C28|287ae1e|debug message of the LOCO Jacobian was not a valid logging record (logging error on stderr)
C26|62a3580|tune fit raised, and would have applied its solution to the wrong quadrupoles
C30|0d2bbcf|SCgetCOD raised (six-dimensional orbit minus two-dimensional offset)
C31|b248cb1|error ramp raised and shared the errors to be reached with the ramped machine
C30|9f2d5e8|dynamic aperture search raised or read the wrong axis of the tracking result
C30|870e1ff|momentum aperture search raised, started at the wrong element
C32|cc81821|multipole tables without unique nominal order raised
C33|2f371f8|maps of the tune scan had the families exchanged on the axes
C33|8ce9ab2|alignment plots showed the results of BPMs that are not given in ring order at other BPMs
C33|87f71e0|showing the progress of an RF correction raised before the first usable measurement"""


def main():
    import os
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl")
    keep = [x for x in open(p) if not x.startswith("fixed:")]
    with open(p, "w") as f:
        f.writelines(keep)
        for line in F.strip().splitlines():
            props, commit, what = line.split("|")
            for q in props.split():
                f.write(f"fixed: property={q} {commit} {what}\n")


if __name__ == "__main__":
    main()
