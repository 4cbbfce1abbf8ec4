"""Stand-in for matplotlib: nothing is drawn, what is asked for is written down."""
rcParams = {}
rcParamsDefault = {}
