"""Harness programs. inpackage: files compiled into a package of /repo through the go overlay.  share: files of other areas."""
AREAS = {
    "exponents": {"race": True},
    "expdigits": {"inpackage": {"bandersnatch/exponents": "exponents_export"}},
    "field": {"race": True},
    # the same for the reference implementation, which is not exported
    "fieldx": {"share": {"field": ["fe.go"]}, "inpackage": {"bandersnatch/fieldElements": "field_export"}, "fallback": "field"},
    # with algorithms that are not exported; without them if they cannot be reached as expected
    "fieldalt": {"share": {"field": None}, "inpackage": {"bandersnatch/fieldElements": "fieldalt_export"}, "fallback": "field"},
    "common": {},
    "constants": {},
    "internals": {"race": True},
    "errors": {"race": True},
    "curve": {"race": True},
    # with the parts of the package that are not exported; without them if they cannot be reached as expected
    "curvex": {"share": {"curve": None}, "inpackage": {"bandersnatch/curvePoints": "curve_export"}, "fallback": "curve"},
    "serializer": {"share": {"curve": ["big.go", "state.go"]}, "race": True},
    # the same with the formats that are not exported; without them if they cannot be reached as expected
    "serializerx": {"share": {"curve": ["big.go", "state.go"], "serializer": None}, "race": True,
                    "inpackage": {"bandersnatch/pointserializer": "serializer_export"}, "fallback": "serializer"},
}
