"""What the Dafny checks run: harness files, contracts of real files, bounds."""
N4 = "'BlockAllocatorModel'"
import sv
from sv import mkSeq
KEYS2 = [mkSeq(x) for x in ([], [0], [1], [0, 0], [0, 1], [1, 0], [1, 1])]
VALS = [mkSeq(x) for x in ([], [1], [2])]
PROPS = {}


def prop(id, harness, contracts, base, bounds, assumptions=(), excluded=()):
    PROPS[id] = dict(harness=harness, contracts=contracts, base=base, bounds=list(bounds), assumptions=list(assumptions), excluded=list(excluded))


prop("D01", ["alloc.dfy"], ["lib/DataStructures/BitmapModel.i.dfy", "lib/Base/BitsetLemmas.i.dfy", "Impl/BlockAllocatorModel.i.dfy"],
     dict(seq=4, over={"Bounds.NumBlocks": 4, "Bounds.NumBlocksUint64": 4}),
     ["4 blocks per bitmap, every content of the ephemeral, frozen, persistent, outstanding and full bitmaps; 64-bit words full width"])
prop("D02", ["layout.dfy"], ["BlockCacheSystem/DiskLayout.i.dfy", "PivotBetree/Bounds.i.dfy"], dict(native=None),
     ["addresses and lengths over all 64-bit values, the repository's own layout constants"])
KEY2 = dict(types={"Key": KEYS2, "Value": VALS}, univ={"Key": KEYS2, "Value": VALS}, byte=(0, 1), seq=2, nat=(0, 2), int=(0, 2), maxuniv=400)
prop("D03", ["mapspec.dfy"], ["MapSpec/MapSpec.s.dfy", "lib/Base/MapRemove.s.dfy"], KEY2,
     ["keys over {0,1} up to two bytes (7 keys), three values, two sync/query ids, result lists up to two entries"])
KEY3 = dict(types={"Key": KEYS2[:3], "Value": VALS}, univ={"Key": KEYS2[:3], "Value": VALS}, byte=(0, 1), seq=1, nat=(0, 2), int=(0, 2), qint=(0, 3), native=(0, 1), maxuniv=400)
prop("D04", ["crash.dfy"], ["MapSpec/ThreeStateVersioned.s.dfy", "Versions/StatesView.i.dfy", "Versions/VOp.i.dfy"], KEY3,
     ["three keys, three values, three sync ids, three disk locations; one arbitrary step from an arbitrary state"])
prop("D05", ["keys.dfy"], ["lib/Marshalling/Seqs.i.dfy"], dict(seq=2),
     ["keys up to three arbitrary bytes (order), prefixes and keys up to three bytes (translation), generic sequences up to two entries"])
LIB = dict(seq=3, int=(0, 3), nat=(0, 3))
prop("D06", ["coll.dfy"], ["lib/Base/Maps.i.dfy", "lib/Base/Sets.i.dfy", "lib/Base/map.i.dfy", "lib/Base/SetBijectivity.i.dfy", "lib/Marshalling/Maps.i.dfy",
     "Splinter/SequenceSets.i.dfy", "lib/Base/Option.s.dfy"], LIB,
     ["generic element types with three values: every set, map, infinite map and sequence (up to three entries) over them"])
prop("D07", ["ints.dfy"], ["lib/Base/PackedIntsLib.i.dfy", "lib/Lang/System/PackedInts.s.dfy", "lib/Marshalling/Util.i.dfy", "lib/Base/mathematics.i.dfy",
     "lib/Math/Math.i.dfy", "lib/Math/Nonlinear.i.dfy", "lib/Math/ModLemmas.i.dfy", "lib/Base/MathAxioms.s.dfy"], dict(native=None, byte=(0, 255), seq=8),
     ["all 16-, 32- and 64-bit values and byte strings; arrays and sequences of up to eight entries; small integers for the arithmetic lemmas"])
RB = dict(depth=2, tv=4, int=(0, 4), over={"_.Less": lambda ev, a, b: sv.ilt(a, b)}, recdepth=40)
prop("D10", ["trees.dfy"], ["examples/red-black.dfy"], RB,
     ["up to five inserts of arbitrary values 0..4 from the empty tree; every tree of depth two for the single-step contracts"])
prop("D08", ["splinter.dfy"], ["Splinter/DiskTypes.s.dfy", "Splinter/CacheIfc.i.dfy", "Splinter/CacheLemmas.i.dfy"],
     dict(seq=2, nat=(0, 2), int=(0, 2), opq=2, over={"DiskTypesMod.DiskSizeInAU": 2, "DiskTypesMod.AUSizeInCUs": 2}),
     ["a disk of 2 allocation units of 2 pages, two page contents, two writes; sets over blocks 0..3"])
prop("D09", ["logsys.dfy"], ["examples/log/DiskLogSystemInv.dfy", "examples/log/DiskLogSystemCrashSafeLogRefinement.dfy"],
     dict(seq=2, int=(0, 3), qint=(-1, 3), opq=2),
     ["logs of up to two entries with two element values, disk blocks 0..3; one arbitrary step from an arbitrary state"])
prop("D11", ["conc.dfy"], ["examples/concurrency-strategies/spec.s.dfy", "examples/concurrency-strategies/commutativity-strategy.dfy", "concurrency/refcounter2/Rational.s.dfy",
     "concurrency/hack-concurrency-framework/Rational.s.dfy"], dict(seq=3),
     ["four accounts, numbers up to 9 for gcd, all bytes for the bit operations, three wells and three threads"])
prop("D12", ["fs.dfy"], ["Filesys/PathSpec.s.dfy"], dict(byte=(0, 1), seq=2),
     ["paths of up to two names of up to two bytes"])
