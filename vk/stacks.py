"""Alphabet of layer stacks used by the GME checks."""
S = {
    "hole": dict(l=(1., []), u=(1., []),
                 layers=[(.25, 12., [("circle0", 1.)])]),
    "two": dict(l=(2.1, []), u=(1., []),
                layers=[(.2, 12., [("circle", 1.)]),
                        (.15, 4., [("tri", 2.)])]),
    "clad": dict(l=(1.3, [("lsh", 2.)]), u=(1., [("circle0", 1.6)]),
                 layers=[(.3, 10., [("square0", 2.)])]),
    "three": dict(l=(1., []), u=(1.9, []),
                  layers=[(.15, 9., [("lsh", 1.)]), (.1, 2.5, []),
                          (.2, 11., [("tri", 1.), ("lsh", 3.)])]),
    "flat": dict(l=(1.5, []), u=(1., []),
                 layers=[(.2, 12., []), (.2, 5., [])]),
    "rod": dict(l=(1., []), u=(1., []),
                layers=[(.5, 1., [("ellipse", 12.)])]),
    "asym": dict(l=(1., []), u=(1., []),
                 layers=[(.3, 11., [("tri", 1.)])]),
    # contrast odd under inversion, zero average
    "odd": dict(l=(1., []), u=(1.2, []),
                layers=[(.35, 6., [("cp", 9.), ("cm", 3.)])]),
    # very weak contrast
    "weak": dict(l=(1., []), u=(1.2, []),
                 layers=[(.35, 9., [("circle", 9.0001)])]),
    "thick": dict(l=(1., []), u=(1., []),
                  layers=[(.8, 9., [("ellipse0", 1.)])]),
    # thick evanescent layer above the guiding one
    "spacer": dict(l=(1., []), u=(2.1, []),
                   layers=[(.25, 12., [("circle", 1.)]),
                           (3., 2.1, [("tri", 1.)])]),
}
