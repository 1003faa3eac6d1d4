"""Assumed stand-in for cartopy.crs: longitudes and latitudes, one flat projection (100 km to the degree), and the sphere."""
import numpy as np

R = 6371229.0
DEG = np.pi / 180.0


class CRS(object):
    scale = 1.0

    def __eq__(self, o):
        return type(self) is type(o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(type(self).__name__)

    def transform_points(self, src, x, y, z=None):
        x = np.asarray(x, dtype=np.float64) / src.scale
        y = np.asarray(y, dtype=np.float64) / src.scale
        return np.stack([x * self.scale, y * self.scale, np.zeros_like(x)], axis=-1)


class PlateCarree(CRS):
    def as_geocentric(self):
        return Geocentric()


class Geodetic(PlateCarree):
    pass


class Projected(CRS):
    scale = 100000.0


class Geocentric(CRS):
    def transform_points(self, src, x, y, z=None):
        lon = np.asarray(x, dtype=np.float64) / src.scale * DEG
        lat = np.asarray(y, dtype=np.float64) / src.scale * DEG
        return np.stack([R * np.cos(lat) * np.cos(lon), R * np.cos(lat) * np.sin(lon), R * np.sin(lat)], axis=-1)
