---- MODULE MCWeather ----
EXTENDS Weather
====
