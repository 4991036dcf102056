import numpy as np

from ..cutting_plane import OracleOptim


class ProfitOracle(OracleOptim):
    def __init__(self, price, scale, elasticities, input_prices, capacity):
        if len(elasticities) != 2 or len(input_prices) != 2:
            raise ValueError("length")
        self.price = price
        self.scale = scale
        self.elasticities = elasticities.copy()
        self.input_prices = input_prices.copy()
        self.capacity = capacity
        self.log_price_scale = np.log(price * scale)
        self.log_capacity = np.log(capacity)

    def _output(self, x):
        a, b = self.elasticities[0], self.elasticities[1]
        return self.scale * x[0] ** a * x[1] ** b

    def _compute_profit(self, x):
        if x[0] <= 0 or x[1] <= 0:
            return -np.inf
        return self.price * self._output(x) - self.input_prices[0] * x[0] - self.input_prices[1] * x[1]

    def _compute_gradient(self, x):
        if x[0] <= 0 or x[1] <= 0:
            return np.zeros(2)
        y = self.price * self._output(x)
        return np.array([self.input_prices[0] - self.elasticities[0] * y / x[0], self.input_prices[1] - self.elasticities[1] * y / x[1]])

    def assess_optim(self, xc, gamma):
        if xc[0] > self.capacity:
            return (np.array([1.0, 0.0]), self.capacity - xc[0]), False
        g = self._compute_gradient(xc)
        if np.sqrt(g[0] * g[0] + g[1] * g[1]) < 1e-6:
            return (g, 0.0), True
        return (g, -0.1), False
