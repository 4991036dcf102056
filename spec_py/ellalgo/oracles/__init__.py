from .lmi_oracle import LmiOracle
from .profit_oracle import ProfitOracle
