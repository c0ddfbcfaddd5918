"""Stand-in for bokeh that records what is drawn."""
