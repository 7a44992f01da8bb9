"""Runtime-monitoring harness for vsaveris/trading-technical-indicators."""
