"""Reference model of the geodetic extension module: the same functions as geo.py."""


class TopocentricConverter:
    def __init__(self, lat=0.0, lon=0.0, alt=0.0):
        self.lat = lat
        self.lon = lon
        self.alt = alt
