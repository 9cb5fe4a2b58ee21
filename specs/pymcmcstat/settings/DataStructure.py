import numpy as np

class DataStructure:

    def __init__(self):
        self.xdata = []
        self.ydata = []
        self.n = []
        self.shape = []
        self.weight = []
        self.user_defined_object = []

    def add_data_set(self, x, y, n=None, weight=1, user_defined_object=0):
        x = self._convert_to_numpy_array(x)
        y = self._convert_to_numpy_array(y)
        x = self._convert_numpy_array_to_2d(x)
        y = self._convert_numpy_array_to_2d(y)
        self.xdata.append(x)
        self.ydata.append(y)
        if n is None:
            if isinstance(y, list):
                self.n.append(len(y))
            elif isinstance(y, np.ndarray) and y.size == 1:
                self.n.append(y.size)
            else:
                self.n.append(y.shape[0])
        else:
            self.n.append(n)
        self.shape.append(y.shape)
        self.weight.append(weight)
        self.user_defined_object.append(user_defined_object)

    @classmethod
    def _convert_to_numpy_array(cls, xy):
        if isinstance(xy, np.ndarray) is False:
            xy = np.atleast_1d(xy)
        return xy

    @classmethod
    def _convert_numpy_array_to_2d(cls, xy):
        if xy.ndim != 2:
            xy = xy.reshape(xy.size, 1)
        return xy

    def get_number_of_batches(self):
        self.nbatch = len(self.shape)
        return self.nbatch

    def get_number_of_data_sets(self):
        dshapes = self.shape
        ndatabatches = len(dshapes)
        nrows = []
        ncols = []
        for ii in range(ndatabatches):
            nrows.append(dshapes[ii][0])
            if len(dshapes[ii]) != 1:
                ncols.append(dshapes[ii][1])
        self.ndatasets = sum(ncols)
        return self.ndatasets

    def get_number_of_observations(self):
        n = np.sum(self.n)
        return np.array([n])
