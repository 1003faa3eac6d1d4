import sys, types, unittest
import os; R=os.environ.get('VERIF_REPO','/repo'); sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.insert(0,R)
from pyvc import concrete
concrete.install_stubs()
import numpy as np
m=types.ModuleType('iris.tests')
class IrisTest(unittest.TestCase):
    def assertArrayEqual(self,a,b): np.testing.assert_array_equal(a,b)
    def assertArrayAlmostEqual(self,a,b,decimal=6): np.testing.assert_array_almost_equal(a,b,decimal=decimal)
    def assertArrayAllClose(self,a,b,rtol=1e-7,atol=1e-8,**k): np.testing.assert_allclose(a,b,rtol=rtol,atol=atol)
    def assertMaskedArrayEqual(self,a,b,strict=False): np.testing.assert_array_equal(np.ma.getmaskarray(a),np.ma.getmaskarray(b)); np.testing.assert_array_equal(a[~np.ma.getmaskarray(a)],b[~np.ma.getmaskarray(b)])
    def assertMaskedArrayAlmostEqual(self,a,b,decimal=6,strict=False): np.testing.assert_array_equal(np.ma.getmaskarray(a),np.ma.getmaskarray(b)); np.testing.assert_array_almost_equal(a[~np.ma.getmaskarray(a)],b[~np.ma.getmaskarray(b)],decimal)
m.IrisTest=IrisTest
m.main=lambda *a:None
sys.modules['iris.tests']=m
import iris
iris.tests=m
import pytest
sys.exit(pytest.main(['-q','-p','no:cacheprovider','--no-header','--tb=short']+sys.argv[1:]))
