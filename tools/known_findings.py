import subprocess
M={"plotting the fit information of objects with individual lengths":("C25","plotFitInformation with one length per object failed or showed wrong predicted ends"),
"added information changes with the arrays":("C17","a later change of the arrays given to add...Information changed the log-probability and the plot, and lists raised an error"),
"image sizes that are computed as floats":("C20","getCameraCone(project_to_ground=True), generateLUT(whole_image=True) and Scene.renderImage failed for image sizes given as floats"),
"the pose from point correspondences ignores":("C24","setCameraParametersByPointCorrespondence gave a wrong pose for different horizontal and vertical focal lengths"),
"correspondence errors are nan if one camera":("C14","pointCorrespondenceError and the correspondence information gave nan (probability 0) if one camera is exactly 1 m or 2 m ahead of the other"),
"plotEpilines fails for points":("C27","plotEpilines raised an AttributeError if an epipolar line does not cross the image"),
"heights of numpy number types":("C10","gpsFromString(text, height) with a height of a numpy integer or float32 type raised TypeError"),
"focallength_px shares distribution and state":("C07","a plain value given to focallength_px did not end the distribution (and fit state) of focallength_x_px, returning to the mean brought the old one back, and vice versa"),
"the sampler draws the rows of an earlier trace by position":("C18","metropolis with a part of an earlier trace (index not 0..n-1) raised a KeyError"),
"pose from point correspondences":("C24","the estimated pose had a wrong heading and position, correspondence errors of hundreds of pixels"),
"invert the lens distortion on its first":("C03","undistorting beyond the range where the radial polynomial increases picked another branch, coarse spline grid was off by pixels"),
"keep the principal point fixed":("C03","the principal point itself was distorted to nan"),
"lenses read scale and offset":("C06","lens kept the focal length and centre of the moment it was bound; later edits of the projection were ignored"),
"spaceFromImage with a list of distances":("C05","spaceFromImage(points, D=list) and grids of points raised or mixed the points up"),
"imageFromCamera no longer changes":("C05","imageFromCamera wrote nan into the caller's points / points at 90 degrees were lost (C01)"),
"accept the documented tuple of two focal lengths":("C09","focallength_px=(fx, fy) raised"),
"image size of a projection initialized with a field of view":("C06","a projection made with view_x_deg ignored later image size changes"),
"do not overwrite a given focal length":("C09","focal length given for one direction was overwritten by the field of view of the other"),
"accept arrays as center and sensor":("C09","center/sensor given as numpy array raised; center given twice as 0 was not rejected"),
"focallength_px always shows":("C07","focallength_px showed a stale value after focallength_x_px was set"),
"wrapping a heading beyond":("C07","a heading beyond 360 became a user-set value (state, default and mean overwritten)"),
"a failing save no longer truncates":("C08","save of a value json cannot store left a truncated file"),
"cameras with numpy numbers as parameters":("C08","camera whose parameters are numpy numbers could not be saved"),
"cameras with a yaw-pitch-roll orientation keep it":("C08","a yaw-pitch-roll camera was loaded as tilt/roll/heading camera"),
"formatGPS accepts numpy numbers":("C10","formatGPS of numpy scalars raised"),
"formatGPS keeps the sign":("C10","formatGPS(-0.5) without letter symbol lost its sign"),
"gpsFromString reads the documented typographic":("C10","gpsFromString did not read the glyphs of its own documentation"),
"gpsFromString adds heights":("C10","gpsFromString(list, height) appended the height as another coordinate"),
"spaceFromGPS keeps the heights of exactly two":("C05","spaceFromGPS of exactly two points took them as two points without height"),
"spaceFromGPS does not add the height":("C11","spaceFromGPS added the height difference to the horizontal distance"),
"spaceFromGPS and gpsFromSpace accept lists":("C05","spaceFromGPS/gpsFromSpace raised for lists"),
"a ray that misses all triangles":("C13","a missed mesh returned inf instead of nan"),
"getClosestPointFromLine no longer":("C05","getClosestPointFromLine normalised the caller's direction in place (also C12)"),
"intersectionOfTwoLines returns an array":("C12","a batch with parallel lines collapsed to a single nan"),
"extrudeLine covers":("C13","extrudeLine left half of each wall segment open"),
"a camera group has as many":("C14","the number of cameras was that of the last list given"),
"scaleSpace scales":("C21","an orientation shared by n cameras was scaled n times"),
"cached maps of top views":("C16","cached maps were reused for another extent, scaling, Z or camera"),
"metropolis stays within the bounds":("C18","proposals outside of the bounds were evaluated after step size adaption"),
"metropolis uses the step sizes":("C18","step sizes of additional parameters were ignored"),
"sample and set_to_mean address":("C18","traces whose index is not 0..n-1 raised or gave wrong rows"),
"fit parameters with a custom distribution":("C18","FitParameter with a custom distribution raised"),
"accept the documented array as variation":("C17","the documented array for the variation of heights/lengths raised"),
"object heights at the center line":("C15","nan for objects on the centre line of the image"),
"read exif numbers":("C19","EXIF rationals of current PIL raised"),
"getCameraParametersFromExif without":("C19","sensor_from_database=False raised"),
"a failed download":("C19","a failed download left an empty database that broke all later calls"),
"formatGPS carries values":("C10","59.99999 minutes were printed as 60 or carried twice"),
"distanceOfTwoLines does not":("C12","distance of parallel lines depended on the direction vector's length"),
"areaOfTriangle handles":("C12","areas of batches / degenerate triangles were nan"),
"intersectionOfTwoLines recognises":("C12","nearly exactly parallel lines intersected at rounding noise"),
"a degenerate triangle":("C13","a degenerate triangle was hit at the origin of the ray"),
"a lens shared by several":("C14","a lens shared by several cameras used the projection of the last one"),
"respect the unit":("C19","focal plane resolution per centimetre read as per inch"),
"a model without maker":("C19","a model named like a maker matched any camera of that maker"),
"rotateSpace also":("C21","rotateSpace raised for yaw-pitch-roll orientations"),
"point correspondences in front":("C17","correct correspondences had the log-probability -inf if the second camera stands ahead of the first"),
"the sampler accounts":("C23","positions near a bound were sampled too rarely: truncated proposals were treated as symmetric"),
"bayesian fridge samples":("C18","the fridge offered the sampling package the log-probability of the camera's own values instead of the sampled ones"),
"views of a scene without":("C22","plotting a scene without a camera raised"),
"keep the values of the earlier trace":("C18","the sampler recorded rows of an earlier trace that did not belong to the recorded log-probability"),
"cache the maps of views in one step":("C26","a view request interrupted between storing the map and storing what it belongs to (or another thread in this moment) made later views show the wrong map"),
"print the summary of a trace":("C27","printTraceSummary raised a math domain error for a trace of one row or with a constant column"),
"guess the extent of a top view":("C16","a top view without extent showed the ground positions of the numbers of the image pixels (0 to width, 0 to height, in metres) instead of the seen ground"),
"rendered scene images":("C22","the second rendered image had the size of the first"),
"small and unsigned integer points":("C05","points given as small or unsigned integers overflowed in the camera transforms"),
"small and unsigned integer arguments":("C05","ray functions overflowed or lost precision for small, unsigned or 16-bit integers"),
"small and unsigned integer coordinates":("C05","gps functions overflowed or lost precision for small and unsigned integers"),
"moving exactly to a pole":("C11","moveDistance to exactly a pole gave nan")}
out=["# Findings. 'fixed:' entries suppress nothing; there is no 'known:' entry at the moment.",
     "# Format of a suppressing entry: known: property=<id> sig=<signature of input/call site> <what fails>"]
for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s","a0bfc90..HEAD"],text=True).splitlines():
    h,s=l.split(" ",1); s=s[5:]
    k=[k for k in M if s.startswith(k)]
    if not k: print("MISSING",l); continue
    p,w=M[k[0]]
    out.append("fixed: property=%s %s %s"%(p,h,w))
open("/verif/KNOWN_FINDINGS.txt","w").write("\n".join(out)+"\n")
