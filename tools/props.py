"""Table of the properties. `python3 tools/mkmeta.py` writes properties.jsonl and MANIFEST.json from it."""

P = {}


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), note=None):
    P[id] = dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                 anchors={'files': ['raytracing/' + f for f in files],
                          'mechanism': [{'name': n, 'where': w} for n, w in mechanism]})
    if state:
        P[id]['anchors']['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe:
        P[id]['anchors']['observe_at'] = list(observe)
    P[id]['anchors']['hook_needed'] = None
    if note:
        P[id]['_note'] = note


prop('C01', 'A product of elements acts like the elements one after the other',
     'Applying the product of two optical elements to any ray without apertures in the way, or to any Gaussian beam, gives the same '
     'result as applying the elements in order: the ABCD matrix of the product is the matrix product, its length the sum of the '
     'lengths, its front/back index and vertices those of the outermost elements, vertices being measured from its entrance. '
     'The product is associative, the identity element is neutral (it takes the index of its neighbour), and neither operand is modified. '
     'Multiplying an element by anything that is not an element, a ray or a Gaussian beam raises a TypeError.',
     ['inputs'], 'all valid pairs and triples of matrices (any ABCD with the right determinant, lengths, indices, vertices present or '
     'not), all rays and beams',
     'The tests multiply a few matrices with chosen numbers; the identities hold for a continuum of matrices, indices and vertices.',
     ['matrix.py', 'axicon.py'],
     [('Matrix.__mul__ / mul_matrix / mul_ray / mul_beam', 'raytracing/matrix.py')], observe=['M2*M1', '(M2*M1)*ray', '(M2*M1)*beam'])

prop('C02', 'A group always describes the ordered elements it currently holds',
     'After any sequence of constructions, appends, insertions, removals, replacements and slices, the ABCD matrix, length, vertices '
     'and indices of a group, its transfer matrix and what it does to a ray are those of the elements it currently holds, in order, '
     'and an empty group is the identity. Copying or slicing a group and then editing one of the two never changes the list of the other. '
     'Tracing a ray between two edits has no influence on the result.',
     ['histories', 'inputs'], 'all histories of edits (checked for every edit on groups of 0 to 4 elements, at every position) and all '
     'element matrices, lengths, indices and vertices',
     'The tests do one edit on one group with fixed numbers and look at a few attributes; stale values only show for particular '
     'orders of edits and traces.',
     ['matrixgroup.py'],
     [('MatrixGroup.append / insert / pop / __setitem__ / __getitem__', 'raytracing/matrixgroup.py'),
      ('MatrixGroup.transferMatrix', 'raytracing/matrixgroup.py')],
     state=[('elements', 'ordered list of what light goes through'), ('A, B, C, D, L, vertices, indices', 'summary of the elements')])

prop('C03', 'Each optical element has the matrix of its physics',
     'Lens, free space, dielectric interface, thick lens, slab, curved mirror, aperture, axicon, singlet, achromatic doublet, '
     'objective, 4f and 2f systems have the ABCD matrix, length, indices, vertices and diameters that follow from paraxial optics (Snell-Descartes at each surface, '
     'straight lines between them), for any parameters including infinite radii. The determinant is always the ratio of the front '
     'index to the back index. An axicon deviates rays by (n-1) alpha towards the axis on both sides, leaves rays on the axis alone, and '
     'refuses Gaussian beams.',
     ['inputs'], 'all focal lengths, radii (finite or infinite, either sign), thicknesses, indices and diameters',
     'The tests compare with numbers for a few radii and indices, mostly symmetric lenses in air.',
     ['matrix.py', 'axicon.py', 'specialtylenses.py', 'components.py'],
     [('constructors of the elements', 'raytracing/matrix.py'), ('SingletLens, AchromatDoubletLens, Objective', 'raytracing/specialtylenses.py'), ('System4f, System2f', 'raytracing/components.py')])

prop('C04', 'Turning an element around describes light going the other way',
     'Turning around a lens, a space, an interface, a thick lens, a slab, an aperture, or a group of these (nested, or with an element '
     'used several times) gives the ABCD matrix of the reversed system, exchanges its indices, keeps its length, and puts its vertices where '
     'they are seen from the other side; a group also reverses the order of its elements and turns each around exactly once. A ray that went '
     'through without being blocked comes back along the same path through the turned element. Turning around twice changes nothing.',
     ['inputs', 'histories'], 'all parameters of the elements, nested groups and repeated elements, all rays',
     'The tests flip symmetric or single elements with fixed numbers.',
     ['matrix.py', 'matrixgroup.py'],
     [('flipOrientation()', 'raytracing/matrix.py, raytracing/matrixgroup.py')])

prop('C05', 'Focal lengths, focal points and principal planes are where rays say they are',
     'For any element or group with power, in any media: rays parallel to the axis meet at the back focal point, rays from the front focal point leave '
     'parallel to the axis, and the principal planes are images of each other with a magnification of 1. The focal lengths are the distances '
     'from the principal planes to the focal points, in the ratio of the indices, and the front and back focal lengths (working distances) are '
     'measured from the vertices. Without power (or without vertex for the working distances) the answer is infinite focal lengths and None positions.',
     ['inputs'], 'all ABCD matrices with the right determinant, lengths, indices, vertices and positions',
     'The tests compare with numbers for a few matrices, nearly all in air.',
     ['matrix.py'], [('effectiveFocalLengths, focusPositions, principalPlanePositions, backFocalLength, frontFocalLength, fromFocusToFocus', 'raytracing/matrix.py')])

prop('C06', 'Conjugate planes are images of each other',
     'For any element or group, the forward and backward conjugates are the distances, in the medium behind or in front, at which the '
     'matrix from object to image has B=0, and the matrix returned with them (ABCD, length and indices) is that of the path including this distance; '
     'when there is no conjugate at a finite distance the forward answer is infinite, without a matrix. The spaces that go to the conjugate or to the focus do so '
     'in the medium of the element, and refuse infinite distances with a ValueError. The magnification is that of the image when the system makes an '
     'image, None otherwise, and each intermediate image reported by a group is really an image after some of its elements, with its magnification.',
     ['inputs'], 'all ABCD matrices with the right determinant, lengths and indices',
     'The tests use a few lenses in air.',
     ['matrix.py', 'matrixgroup.py'], [('forwardConjugate, backwardConjugate, magnification, isImaging', 'raytracing/matrix.py'),
                                       ('ToConjugate, ToFocus', 'raytracing/matrix.py'), ('intermediateConjugates', 'raytracing/matrixgroup.py')])

prop('C07', 'Apertures block exactly the rays outside them, and blocked rays stay blocked',
     'A ray that meets an element is blocked if and only if it was already blocked, or its height exceeds half the diameter of the element, or its angle '
     'exceeds the numerical aperture of the element, on either side of the axis. Through a group a ray gets through if and only if it is inside every aperture where it crosses it; '
     'an infinite aperture blocks nothing and a blocked ray or clipped beam never becomes unblocked. A Gaussian beam is clipped if and only if it already was or its half-width exceeds '
     'half the diameter.',
     ['inputs'], 'all rays, apertures and numerical apertures, groups of 1 to 3 elements',
     'The tests trace a few rays well inside or outside, mostly with positive heights.',
     ['matrix.py', 'matrixgroup.py', 'axicon.py'], [('mul_ray, mul_beam, trace', 'raytracing/matrix.py'), ('trace', 'raytracing/matrixgroup.py')],
     state=[('isBlocked', 'the ray met an aperture it was outside of'), ('isClipped', 'same for beams')])

prop('C08', 'Tracing depends only on the elements and on the ray, and modifies neither',
     'Tracing a ray or a Gaussian beam through an element or a group gives a result that depends only on the current elements and on the current content of the ray '
     '(height, angle, position, blocked or not, wavelength): never on what was traced before. Neither the input ray nor the elements are modified. '
     'The trace of a group starts with the input ray, ends with what the last element makes of it, which for an unblocked ray is the ABCD matrix applied to it at z + length with its wavelength kept.',
     ['histories', 'inputs'], 'all rays and element parameters; histories of two and three traces with rays modified in between',
     'The tests trace a ray once; a remembered trace only shows when a ray is changed or traced again.',
     ['matrix.py', 'matrixgroup.py', 'axicon.py'], [('trace, traceThrough', 'raytracing/matrix.py, raytracing/matrixgroup.py')])

prop('C09', 'Tracing many rays is tracing each of them',
     'Tracing a list, tuple, iterator or ray collection gives, in order, the same result for each ray as tracing it alone: all traces, or only the '
     'output rays that are not blocked. The parallel version returns the same rays whatever the number of processes and of rays, in any order. '
     'The rays given are not modified, progress reports change nothing, and something that cannot be iterated raises a TypeError.',
     ['inputs', 'configurations'], 'all rays; collections of 0 to 3 rays given as list, tuple, iterator or collection; 1 to 3 processes; with or without progress',
     'The tests trace fixed fans and count the output.',
     ['matrix.py', 'rays.py'], [('traceMany, traceManyThrough, traceManyThroughInParallel', 'raytracing/matrix.py')])

prop('C10', 'The optical invariant of two rays is the same everywhere along the path',
     'For any two rays, n (theta1 y2 - y1 theta2) is the same before and after any element or group, and the value reported at any distance along a path '
     'is this value, in the medium where it is evaluated. Exchanging the rays changes its sign, and the rays are not modified.',
     ['inputs'], 'all pairs of rays, all element parameters and indices, all distances',
     'The tests evaluate it for one pair of rays at the ends of a system in air.',
     ['matrix.py'], [('opticalInvariant', 'raytracing/matrix.py')])

prop('C11', 'The transfer matrix up to a distance is what light went through so far',
     'The transfer matrix of any element or group (nested or not) up to a distance is that of the elements in front of this distance, plus the part up to it of the space, slab or thick lens it '
     'falls in, with that length and the index of the medium there. Elements without length located exactly at the distance are included; beyond the end, it is the whole system. '
     'Asking modifies nothing, and asking for the inside of a generic matrix, whose inside is not known, raises a TypeError.',
     ['inputs'], 'all parameters and all distances: inside each element, at each boundary, beyond the end',
     'The tests ask at a few distances.',
     ['matrix.py', 'matrixgroup.py'], [('transferMatrix(upTo)', 'raytracing/matrix.py, raytracing/matrixgroup.py')])

prop('C12', 'Stops, pupils, chief and marginal rays are consistent with the apertures',
     'The aperture stop is the element whose diameter an axial ray fills the most, at its position and with its diameter. The chief ray from any height goes through its centre, the '
     'marginal rays from any height touch its opposite edges, the upper one being above the lower one, the axial ray is the upper one from the axis, and the entrance pupil is the image of the stop as seen from the '
     'object, with a positive diameter scaled by the magnification. The f-number is the focal length over the pupil diameter, the image of the object is its height times the magnification, and without aperture (or with the stop on '
     'an image of the object) there is none of these; asking modifies nothing.',
     ['inputs'], 'all distances, focal lengths and diameters of paths with one or two apertures, all heights',
     'The tests use a few systems with fixed numbers, mostly with the stop at the first lens.',
     ['imagingpath.py'], [('apertureStop, entrancePupil, chiefRay, marginalRays, axialRay, fNumber, imageSize', 'raytracing/imagingpath.py')])

prop('C13', 'Gaussian beams follow the ABCD law and their parameters follow from q',
     'Through any element the complex radius of a Gaussian beam becomes (Aq+B)/(Cq+D), its position advances by the length, its wavelength is kept, and its index becomes that of the medium behind; a '
     'beam in another medium than the front one raises an error. Width, curvature, Rayleigh range, waist size and waist position are those of 1/q = 1/R - i lambda/(n pi w^2) '
     'in the medium of the beam, and a beam created from a width and curvature has them. Free propagation keeps waist and Rayleigh range, a thin lens or an interface keeps the width, and reading parameters modifies nothing.',
     ['inputs'], 'all beams (q, wavelength, index), all valid ABCD matrices and media',
     'The tests use a few beams, in air, mostly at the waist.',
     ['gaussianbeam.py', 'matrix.py'], [('GaussianBeam properties', 'raytracing/gaussianbeam.py'), ('Matrix.mul_beam', 'raytracing/matrix.py')])

prop('C14', 'Laser cavity modes reproduce themselves after a round trip',
     'The eigenmodes of a cavity are solutions of q = (Aq+B)/(Cq+D) for its round trip, in its medium. A cavity is stable if and only if the round trip confines a beam, and then there is exactly one laser mode, finite, that comes back '
     'identical; otherwise, or without power, there is none. Unfolding a cavity appends its elements turned around (a mirror stays the same mirror) in reverse order, first or last skipped as asked, modifies none of them and describes the whole round trip; asking for modes modifies nothing.',
     ['inputs'], 'all round-trip matrices and cavities of spaces, lenses and mirrors',
     'The tests use a few symmetric cavities.',
     ['lasercavity.py'], [('eigenModes, laserModes, isStable, appendElementsInReverse', 'raytracing/lasercavity.py')])

prop('C15', 'Edits that do not fit (medium, kind, position) are refused and change nothing',
     'In any group each element ends in the medium where the next one starts: an appended free space takes the medium of the element before it, and any other edit (construction, append, '
     'insertion, replacement, removal) that would join different media raises a ValueError. An edit with something that is not an element raises a TypeError, and one at a position that does not exist raises an IndexError. '
     'Whenever an edit is refused, the elements of the group, its matrix and everything else about it are exactly as they were before.',
     ['inputs', 'histories', 'fault_sequences'], 'all edits at all positions in groups of up to 3 elements, all indices',
     'The tests check that an exception is raised for one edit and do not look at the group afterwards.',
     ['matrixgroup.py'], [('append, insert, pop, __setitem__', 'raytracing/matrixgroup.py')])

prop('C16', 'Values that make no sense are refused',
     'An element with a diameter or numerical aperture that is not positive, a matrix whose determinant is not the ratio of its indices, a negative object height, a ray fan without rays, a lens without index and without material, a chief ray from the edge of an infinite field, and a ray '
     'collection given or appended anything but rays are all refused with a ValueError or TypeError, whatever the other arguments. A matrix with the right determinant is always accepted. '
     'What existed before a refusal is unchanged.',
     ['inputs'], 'all values outside the valid range, for every constructor',
     'The tests try a couple of wrong values such as 0 or -1.',
     ['matrix.py', 'imagingpath.py', 'rays.py', 'ray.py', 'specialtylenses.py'], [('constructors', 'raytracing/matrix.py')])

prop('C17', 'Values computed from a set of rays are those of the rays it holds now',
     'The heights, angles, count, histograms and default limits given by a set of rays are always those of the rays it holds when they are asked for, with the parameters asked for, '
     'whatever was asked before and whatever was appended or loaded since. Two sets never share rays or values, the list given by .rays can be edited without any effect on the set, and a set of random rays '
     'gives the same rays each time it is looked at.',
     ['histories', 'inputs'], 'all ray values and bin limits; reads before and after appends, loads and reads with other parameters, on sets of 0 to 3 rays',
     'The tests read each value once from a fresh set; stale values only show when a value is read, the set changed, and the value read again.',
     ['rays.py'], [('yValues, thetaValues, rayCountHistogram, rayAnglesHistogram, append, load', 'raytracing/rays.py')],
     state=[('_yValues, _thetaValues, _yHistogram, _thetaHistogram', 'values kept from the last time they were asked for')])

prop('C18', 'Sources give the announced rays, inside the announced limits',
     'Uniform, object, lamp, Lambertian and random sources and ray fans give exactly the number of rays announced, at heights and angles inside the limits asked for (ends included for uniform grids, which hold every combination of the heights and angles), '
     'a missing minimum being minus the maximum and a minimum of zero being zero. Lambertian sources give a number of rays at each angle proportional to its cosine. '
     'Random sources never give more rays than announced, and raise an IndexError beyond.',
     ['inputs'], 'all limits, heights, angles; grids of up to 4 by 4 rays; all outcomes of the random numbers',
     'The tests use a few limits and one draw of the random numbers.',
     ['rays.py', 'ray.py'], [('UniformRays, ObjectRays, LampRays, LambertianRays, RandomUniformRays, RandomLambertianRays', 'raytracing/rays.py'), ('Ray.fan, Ray.fanGroup', 'raytracing/ray.py')])

prop('C19', 'What is saved is what is loaded',
     'Rays and groups of elements loaded from a file that was saved have the same rays and elements in the same order with all their attributes (height, angle, position, blocked or not, wavelength; matrix, length, vertices, indices, diameter, label), '
     'replace the previous content, or follow it when asked to append, and trace rays the same way. Loading twice gives independent copies, two files are not mixed up, and loading a missing file or one that holds something else raises an error and leaves the content as it was.',
     ['histories', 'inputs', 'fault_sequences'], 'all attributes of rays and elements, collections of 0 to 2 members',
     'The tests save and load a few objects and compare lengths or the first attributes.',
     ['rays.py', 'matrixgroup.py'], [('Rays.save, Rays.load', 'raytracing/rays.py'), ('MatrixGroup.save, MatrixGroup.load', 'raytracing/matrixgroup.py')])

prop('C20', 'Sets of rays and groups of elements can be read like lists',
     'Every set of rays and every group of elements gives its members in order in a for loop, by index and with len(), as often as asked; loops nested inside of each other, interrupted, or run side by side over the same '
     'container do not disturb each other. next() of a container that was not looped over gives each member once and then stops. Empty containers give nothing. A container made from a list, a tuple, an iterator, a generator or another container holds all of its members, and the last one appended is the last. A slice of a container, whichever kind, gives the members that the same slice of the list of them has.',
     ['histories', 'inputs'], 'all kinds of containers with 0 to 3 members, and all interleavings of two loops of the shapes named',
     'The tests loop once over each kind of container.',
     ['rays.py', 'matrixgroup.py'], [('__iter__, __next__, __getitem__, __len__', 'raytracing/rays.py, raytracing/matrixgroup.py')])

prop('C21', 'Between the planes where it was traced, a ray is a straight line',
     'The ray at any position has the same angle, wavelength and blocked state, and the height of the straight line through the ray at that position; going there in two steps or going back changes nothing, and it is what a space of that '
     'length gives. Along a trace, the ray at any position is the straight line from the last plane in front of it; after an aperture that blocks it, it is blocked, before it, it is not. '
     'Neither the ray nor the trace is modified. Two rays are equal if and only if their heights and angles are.',
     ['inputs'], 'all rays, positions, focal lengths, distances and diameters',
     'The tests look at a couple of positions.',
     ['ray.py'], [('Ray.at, Ray.along, Ray.__eq__', 'raytracing/ray.py')])

prop('C22', 'Materials have the dispersion of the glass they are named after',
     'From 0.4 to 2 microns, the index of every material is given by one formula, decreases with the wavelength and has values of a glass (1.4 to 2.1); its Abbe number is that of its dispersion formula, and its index at 587.6 nm is that of the catalogue. '
     'A wavelength that cannot be in microns is refused by every material. A material is found by its name with or without dashes and capitals and an unknown name is refused; a search by index gives all the materials within the tolerance and only them.',
     ['inputs', 'configurations'], 'all 36 materials, all wavelengths from 0.4 to 2 microns (a continuum, decided exactly), all names, all indices and tolerances',
     'The tests compare a few indices at single wavelengths.',
     ['materials.py'], [('Material and its subclasses', 'raytracing/materials.py')])

prop('C23', 'Catalogue lenses and objectives are what their part number says',
     'Every lens and objective of the vendor modules can be created and is listed once under its own name. Its label is its part number, a Thorlabs part number gives its diameter and focal length, the focal and back focal lengths (within 5%) and the edge thickness (6%) '
     'that follow from its radii, thicknesses and glasses are those it announces, all its surfaces have its diameter, and a mounted lens is the same as the unmounted one. Glass lenses use the index of their glasses at the wavelength asked for, or else at their reference wavelength; '
     'the focal shift at a wavelength is the focal length there minus the design one. A lens made from data of which a focal length (by more than 1%) or the edge thickness (5%) does not follow from the rest gives a note with both values, and no note otherwise. Objectives have the magnification and focal length of their name and tube lens, and their optical invariant is half the field number over the magnification times the numerical aperture.',
     ['configurations', 'inputs'], 'all lenses of thorlabs.py and eo.py (about 330) and all objectives of olympus.py and nikon.py, default and other wavelengths',
     'The tests create some of the lenses; a mismatch only gives a warning, and a wrong digit in one entry shows nowhere else.',
     ['thorlabs.py', 'eo.py', 'olympus.py', 'nikon.py', 'specialtylenses.py'],
     [('catalogue classes', 'raytracing/thorlabs.py, raytracing/eo.py, raytracing/olympus.py, raytracing/nikon.py'), ('CompoundLens.focalShifts, CompoundLens.all', 'raytracing/specialtylenses.py')])

prop('C24', 'A Zemax file gives the lens that it describes, in millimetres',
     'Reading a Zemax file, in UTF-8 or UTF-16, gives one surface per SURF block, in order, with the radius (inverse of the curvature, infinite when flat), spacing, diameter (twice DIAM, infinite without) and glass it states, lengths being converted to mm from the unit of the file. The lens runs from its first glass to the '
     'following air; its group has these interfaces and spaces at the middle design wavelength, the design wavelengths being those listed without the 0.55 entries that fill the list up. An unknown glass or a missing file is refused, and two files share nothing.',
     ['inputs', 'configurations'], 'all curvatures, spacings and diameters; all units and encodings; files of 2 to 6 surfaces',
     'The tests read one file in mm.',
     ['zemax.py'], [('ZMXReader', 'raytracing/zemax.py')])

prop('C25', 'Preferences are kept, and shared by all Preferences objects',
     'A preference that is set is what every Preferences object of the user, existing or new, gives for that key until it is set again, deleted or reset; setting or deleting one key changes no other, and what was deleted or reset through one object does not come back through another. '
     'A value that cannot be saved is refused with a TypeError and changes nothing. A missing, empty, odd or unreadable file is never an error, and when the file cannot be written, nothing fails and the object keeps what was set as long as it lives.',
     ['histories', 'inputs', 'fault_sequences'], 'all values; one change from any content of the file and of the memory of the objects (inductive), and all histories of 3 (thorough: 4) operations on two objects; 11 kinds of files; files that cannot be written',
     'The tests set and read a value with a single object.',
     ['preferences.py'], [('Preferences', 'raytracing/preferences.py')],
     state=[('the file and the dictionary of each object', 'the saved preferences and a copy of them')])

prop('C26', 'The warning mode decides which messages are shown, and is remembered when asked',
     'Whatever the filters and modes before, beginnerMode() shows hints each time and notes, user warnings and deprecations once per place, expertMode() hides hints and shows the others once, silentMode() shows none of them; beginner and expert modes leave other warnings alone. '
     'The mode is saved if and only if it is asked, with no effect on other preferences, and the next session starts in the mode saved last, in expert mode when RAYTRACING_EXPERT is set, in beginner mode if there is no valid mode. '
     'All the messages of raytracing belong to a category that the modes control, are shown with category and file name, and deprecated functions warn and give the same result as before.',
     ['histories', 'configurations'], 'all sequences of 3 (thorough: 5) modes, 6 kinds of earlier filters, every call that gives a message',
     'The tests look at the saved mode; the filters in force are never looked at.',
     ['utils.py', '__init__.py'], [('beginnerMode, expertMode, silentMode, deprecated, warningLineFormat', 'raytracing/utils.py'), ('mode at import', 'raytracing/__init__.py')],
     state=[('warnings.filters', 'the last filter added has precedence')])

prop('C27', 'Importing always works, and asks for the latest version once a day at most',
     'Importing the package raises nothing whatever is in the preferences file and in each saved value, whether the file can be written or not, whatever the error of the network or the answer of the server, and when an optional module is missing. '
     'The latest version is asked for if it was not asked for during the last day, and not otherwise, even after a failure. A newer version is announced if and only if one is listed, in any order.',
     ['fault_sequences', 'configurations', 'histories'], '11 kinds of files, 11 kinds of saved values, 8 network errors, 8 odd answers, files writable or not; times since the last check from 0 to a year; all orders of up to 3 (thorough: 5) versions',
     'Tests run with a working preferences file and are only started after an import that succeeded.',
     ['__init__.py', 'utils.py', 'preferences.py'], [('statements of the package', 'raytracing/__init__.py'), ('checkLatestVersion', 'raytracing/utils.py')])

prop('C28', 'Displaying changes nothing that is displayed',
     'display(), saveFigure() and the other ways of drawing leave every element, path, ray, source of rays and beam as it was: matrices, lengths, apertures and sizes, object height and position (with limitObjectToFieldOfView=False), the lists given by the caller, the results computed afterwards; '
     'a second display shows the same picture as the first, and what one display was asked for (which rays, whether blocked rays are removed) does not carry over to the next; what design() set stays. That holds as well when a display fails (a file that cannot be written): it leaves nothing behind for the next one.',
     ['histories', 'inputs'], 'every kind of element (also flipped, infinite, in groups), rays, sources and beams; all options of display(); two displays in a row; heights, angles and diameters are any reals',
     'The tests of the display only check that it does not crash.',
     ['figure.py', 'graphics.py', 'graphicComponents.py', 'imagingpath.py', 'laserpath.py', 'matrix.py', 'matrixgroup.py', 'rays.py'],
     [('Figure.display', 'raytracing/figure.py'), ('ImagingPath.display', 'raytracing/imagingpath.py'), ('LaserPath.display', 'raytracing/laserpath.py'), ('displayHalfHeight', 'raytracing/matrix.py')],
     note='matplotlib is replaced by a small abstract one that records the artists; pixel layout and the overlap of labels are not covered')

prop('C31', 'What a figure shows is what the path computes',
     'Every ray of a source is drawn as the polyline of its trace (also backwards from an object inside the path), up to the aperture that blocks it when removeBlocked=False and not at all otherwise; objects, images, lamps and entrance pupils are drawn where they are with their heights; '
     'lenses, apertures, interfaces, thick and compound lenses, objectives, generic elements and groups are drawn at their position in the path with their diameter, curvature and orientation; AS, FS, focal points, principal planes and labels are at the positions computed; '
     'beams have the size w along the path and arrows at their waists; colours, fills and onlyAxialRay of design() are followed; principal and axial rays are shown only when no rays are given; check boxes show and hide their group only; the vertical range holds the elements and the object; saveFigure() draws the same; histograms and chromatic curves plot the values computed.',
     ['inputs', 'configurations'], 'ray heights, angles, object heights, diameters and some distances are any reals; each kind of element, source and option',
     'The tests of the display only check that it does not crash, or compare with stored pictures nobody looks at.',
     ['figure.py', 'graphics.py', 'graphicComponents.py', 'imagingpath.py', 'laserpath.py', 'rays.py', 'specialtylenses.py'],
     [('Figure.rayTraceLines', 'raytracing/figure.py'), ('Figure.graphicsOfElements', 'raytracing/figure.py'), ('Figure.graphicsOfConjugatePlanes', 'raytracing/figure.py'), ('Figure.beamWaistAnnotations', 'raytracing/figure.py'),
      ('MatrixGraphic', 'raytracing/graphics.py'), ('SurfacePair', 'raytracing/graphicComponents.py')],
     note='matplotlib is replaced by a small abstract one that records the artists; pixel layout and the overlap of labels are not covered')

prop('C32', 'Field stop, field of view, numerical aperture and image size are consistent',
     'The field stop is never the aperture stop: it is another aperture, at its position and with its diameter, and one that chief rays do not fill less than an aperture they meet before. The chief ray from the edge of the field of view goes through all apertures; '
     'the field of view is twice its half, the principal ray is the chief ray from its edge, the Lagrange invariant is the optical invariant of the axial and principal rays, the numerical aperture is the index in front times the sine of the angle of the axial ray, and the image has '
     'the size of the field of view (or of the object) times the magnification, never negative. Without aperture stop, or with the stop on (an image of) the object, there is no field stop, the field is infinite and there is no principal ray, and nothing raises; asking modifies nothing.',
     ['inputs'], 'all focal lengths, distances and diameters of paths with one, two or (at three geometries) three apertures; any last step of the search',
     'The search ends after a number of steps that depends on the system: the tests look at the result in a handful of systems with fixed numbers.',
     ['imagingpath.py'], [('fieldStop, hasFieldStop, halfFieldOfView, fieldOfView, principalRay, imageSize, lagrangeInvariant, NA', 'raytracing/imagingpath.py')],
     note='loops without static bound are treated as any last iteration from any values of the variables they carry; that the search ends, and how close to the edge it ends, is not covered')

prop('C30', 'The part of a path from a position inside of it acts like the path from there',
     'subPath(z) is the rest of the path from z: what is left of the space at z, then the elements beyond; backwards it is the elements before z turned around, in the opposite order (a mirror stays the same mirror), so that the transfer matrix is that of '
     'light going the other way, with the lengths, media and apertures met on the way. A position outside of the path, or inside of an element that is not a space, raises an error. The path is not modified.',
     ['inputs'], 'all positions in any space of the path and all parameters of lenses, interfaces, thick lenses, mirrors, groups and apertures beyond or before it',
     'The tests only display rays from one position inside a path and do not look at the result.',
     ['imagingpath.py', 'matrix.py', 'matrixgroup.py'], [('ImagingPath.subPath', 'raytracing/imagingpath.py')])

prop('C29', 'Every path uses names, attributes and arguments that exist',
     'In every function of the package, on every path, error paths and rarely used options included: names are defined (and locals assigned on some path before they are used), imported names exist in the module they come from, attributes and methods of self exist in the class, its bases or its '
     'subclasses, properties that are assigned have a setter, calls of functions, methods and constructors of the package pass arguments that the signature accepts, what is raised is an exception, and format strings refer to arguments they are given.',
     ['inputs', 'configurations'], 'all functions and module bodies of the package, whatever path is taken',
     'Tests only run some paths; messages of errors, options of the display and prescriptions of most vendor lenses are never reached by any.',
     ['matrix.py', 'matrixgroup.py', 'imagingpath.py', 'laserpath.py', 'lasercavity.py', 'gaussianbeam.py', 'ray.py', 'rays.py', 'figure.py', 'graphics.py', 'graphicComponents.py', 'specialtylenses.py', 'materials.py', 'zemax.py', 'preferences.py',
      'utils.py', 'interface.py', 'components.py', 'axicon.py', 'thorlabs.py', 'eo.py', 'olympus.py', 'nikon.py', 'lensViewer.py', '__main__.py', '__init__.py'],
     [('whole package', 'raytracing/*.py')],
     note='attributes of numpy, matplotlib and of values whose class is not known from the syntax are not covered')

prop('C33', 'Elements and groups are equal exactly when their parameters are',
     'Two elements of the same kind are equal exactly when all their parameters (and labels) are, two groups exactly when they hold equal elements in the same order; equality is symmetric, an element equals itself and its deep copy, and nothing equals something that is not an element. '
     'Comparing, tracing or looping does not change what is equal, and a copy that is edited is no longer equal while the original is as it was.',
     ['inputs'], 'all values of all parameters of lenses, spaces, apertures, interfaces, thick lenses, slabs, mirrors and axicons, one differing at a time; groups of two elements',
     'The tests compare a few elements with fixed numbers.',
     ['matrix.py', 'matrixgroup.py', 'axicon.py'], [('Matrix.__eq__', 'raytracing/matrix.py'), ('MatrixGroup.__eq__', 'raytracing/matrixgroup.py')])

prop('C34', 'What is printed or reported states what was computed, and changes nothing',
     'The text of a matrix, a ray or a beam states its parameters with the values it has (A, B, C, D and the focal length or that it is afocal; height, angle, position and whether it is blocked; q, w, R, z, wavelength, and the waist, or that the beam is not finite). '
     'The prescription of a Zemax file lists radius, glass, spacing and diameter of each surface, in order, in mm. The efficiency report states the invariants, the numerical aperture, the f-number, the field of view, the limiting stop and the percentages of rays transmitted and lost to vignetting, '
     'with one dot for each ray, whatever happens to the rays (all, one or none transmitted, not collected or vignetted). Progress, class hierarchy and lens catalog list what there is, once. Printing or reporting does not modify what is printed.',
     ['inputs'], 'all values of the parameters of matrices, rays and beams; prescriptions of all doublets in mm and inches; reports for sets of rays transmitted, not collected and vignetted in every combination of none, one and several',
     'The tests only check that printing gives something.',
     ['matrix.py', 'ray.py', 'gaussianbeam.py', 'zemax.py', 'imagingpath.py', 'rays.py', 'utils.py'],
     [('Matrix.__str__', 'raytracing/matrix.py'), ('Ray.__str__', 'raytracing/ray.py'), ('GaussianBeam.__str__', 'raytracing/gaussianbeam.py'), ('ZMXReader.prescription', 'raytracing/zemax.py'), ('ImagingPath.reportEfficiency', 'raytracing/imagingpath.py')])

NA = []
