package javax.xml.bind.annotation;

import java.lang.annotation.*;

/** Stands in for JAXB's, with its targets and the elements that generated code uses. */
@Retention(RetentionPolicy.RUNTIME)
@Target({ElementType.FIELD, ElementType.METHOD})
public @interface XmlAttribute {
    String name() default "##default";
    boolean required() default false;
    String namespace() default "##default";
}
